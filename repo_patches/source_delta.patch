From a59f78c4e09b4ef8b3f52f5dc3e5abd18d768a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 001/121] fix: load_document() of a string honours load_all

---
 src/cwl_utils/parser/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index e7fef0d..8626d61 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -361,7 +361,7 @@ def load_document(
     if baseuri is None:
         baseuri = schema_salad.runtime.file_uri(str(Path.cwd())) + "/"
     if isinstance(doc, str):
-        return load_document_by_string(doc, baseuri, loadingOptions, id_)
+        return load_document_by_string(doc, baseuri, loadingOptions, id_, load_all)
     return load_document_by_yaml(doc, baseuri, loadingOptions, id_, load_all)
 
 
-- 
2.43.0


From a625fe307250fe0c4628182dec95d1a5597ba60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 002/121] fix: keep '+' in the path when loading a document by
 path or file URI

---
 src/cwl_utils/parser/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 8626d61..22c57a3 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -5,7 +5,7 @@ from abc import ABC
 from collections.abc import MutableMapping, MutableSequence
 from pathlib import Path
 from typing import Any, TypeAlias, cast
-from urllib.parse import unquote_plus, urlparse
+from urllib.parse import unquote, urlparse
 
 import schema_salad.metaschema
 import schema_salad.runtime
@@ -328,8 +328,8 @@ def load_document_by_uri(
         uri = urlparse(path)
         id_ = uri.fragment or None
         if not uri.scheme or uri.scheme == "file":
-            real_uri = Path(unquote_plus(uri.path)).resolve().as_uri()
-            base_uri = Path(unquote_plus(uri.path)).resolve().parent.as_uri()
+            real_uri = Path(unquote(uri.path)).resolve().as_uri()
+            base_uri = Path(unquote(uri.path)).resolve().parent.as_uri()
         else:
             real_uri = path
             base_uri = os.path.dirname(path)
-- 
2.43.0


From 6241602eee8fe16c1d93e820888a1514fa25d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 003/121] fix: load_document_by_uri() of a Path with a
 #fragment opens the file itself

---
 src/cwl_utils/parser/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 22c57a3..2cd1193 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -334,9 +334,14 @@ def load_document_by_uri(
             real_uri = path
             base_uri = os.path.dirname(path)
     else:
-        real_uri = path.resolve().as_uri()
-        base_uri = path.resolve().parent.as_uri()
-        id_ = path.resolve().name.split("#")[1] if "#" in path.resolve().name else None
+        path = path.resolve()
+        id_ = None
+        if "#" in path.name and not path.exists():
+            name, _, fragment = path.name.partition("#")
+            path = path.with_name(name)
+            id_ = fragment or None
+        real_uri = path.as_uri()
+        base_uri = path.parent.as_uri()
 
     loadingOptions = LoadingOptions(
         fileuri=real_uri, baseuri=base_uri, copyfrom=loadingOptions
-- 
2.43.0


From 16972ba7886e9d19f1a02def81306d5a8cc53c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 004/121] fix: selecting a process of a $graph does not modify
 the parsed document

---
 src/cwl_utils/parser/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 2cd1193..5583f65 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -1,5 +1,6 @@
 # SPDX-License-Identifier: Apache-2.0
 
+import copy
 import os
 from abc import ABC
 from collections.abc import MutableMapping, MutableSequence
@@ -392,7 +393,7 @@ def load_document_by_yaml(
     """Load a CWL object from a YAML object."""
     version = cwl_version(yaml)
     if "$graph" in yaml and not load_all:
-        yaml = _get_id_from_graph(yaml, id_)
+        yaml = copy.copy(_get_id_from_graph(yaml, id_))
         yaml["cwlVersion"] = version
     match version:
         case "v1.0":
-- 
2.43.0


From ab5562deb70acbb6c8929c0194c3f732e2d1a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 005/121] fix: a process selected from a $graph keeps the
 document's $namespaces, $schemas and $base

---
 src/cwl_utils/parser/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 5583f65..7e747b3 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -393,8 +393,12 @@ def load_document_by_yaml(
     """Load a CWL object from a YAML object."""
     version = cwl_version(yaml)
     if "$graph" in yaml and not load_all:
-        yaml = copy.copy(_get_id_from_graph(yaml, id_))
+        graph = yaml
+        yaml = copy.copy(_get_id_from_graph(graph, id_))
         yaml["cwlVersion"] = version
+        for directive in ("$base", "$namespaces", "$schemas"):
+            if directive in graph:
+                yaml.setdefault(directive, graph[directive])
     match version:
         case "v1.0":
             result = cwl_v1_0.load_document_by_yaml(yaml, uri, loadingOptions)
-- 
2.43.0


From 814c76620457c2295879a43904d1e43126f83bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 006/121] fix: load_document_by_uri() of a remote URI keeps the
 #fragment out of the base URI

---
 src/cwl_utils/parser/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 7e747b3..f6dc353 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -6,7 +6,7 @@ from abc import ABC
 from collections.abc import MutableMapping, MutableSequence
 from pathlib import Path
 from typing import Any, TypeAlias, cast
-from urllib.parse import unquote, urlparse
+from urllib.parse import unquote, urldefrag, urlparse
 
 import schema_salad.metaschema
 import schema_salad.runtime
@@ -332,8 +332,8 @@ def load_document_by_uri(
             real_uri = Path(unquote(uri.path)).resolve().as_uri()
             base_uri = Path(unquote(uri.path)).resolve().parent.as_uri()
         else:
-            real_uri = path
-            base_uri = os.path.dirname(path)
+            real_uri = urldefrag(path).url
+            base_uri = os.path.dirname(real_uri)
     else:
         path = path.resolve()
         id_ = None
-- 
2.43.0


From 5c2aa23cddb6490071dbb4871c7ab0913148a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 007/121] fix: bytes2str_in_dicts() converts every element of a
 list, not only the first

---
 src/cwl_utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index bfae73d..4cada5e 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -74,7 +74,7 @@ def bytes2str_in_dicts(
     if isinstance(inp, MutableSequence):
         for idx, value in enumerate(inp):
             inp[idx] = bytes2str_in_dicts(value)
-            return inp
+        return inp
 
     # if value is bytes, return decoded string,
     elif isinstance(inp, bytes):
-- 
2.43.0


From 2fc18a103349613456589a32cf2d65a02372b493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 008/121] fix: evaluating an expression does not decode the
 byte strings in the caller's inputs

---
 src/cwl_utils/utils.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 4cada5e..ffb2278 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -59,22 +59,18 @@ def bytes2str_in_dicts(
     inp: MutableMapping[str, Any] | MutableSequence[Any] | Any,
 ) -> str | MutableSequence[Any] | MutableMapping[str, Any]:
     """
-    Convert any present byte string to unicode string, inplace.
+    Copy the input, with any present byte string converted to unicode string.
 
     input is a dict of nested dicts and lists
     """
     # if input is dict, recursively call for each value
     if isinstance(inp, MutableMapping):
-        for k in inp:
-            inp[k] = bytes2str_in_dicts(inp[k])
-        return inp
+        return {k: bytes2str_in_dicts(value) for k, value in inp.items()}
 
     # if list, iterate through list and fn call
     # for all its elements
     if isinstance(inp, MutableSequence):
-        for idx, value in enumerate(inp):
-            inp[idx] = bytes2str_in_dicts(value)
-        return inp
+        return [bytes2str_in_dicts(value) for value in inp]
 
     # if value is bytes, return decoded string,
     elif isinstance(inp, bytes):
-- 
2.43.0


From 74ac18137e20b52191fb5214b0c8d396299bfe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 009/121] fix: JavaScript results with multi-byte characters do
 not depend on how the pipe splits them

---
 src/cwl_utils/sandboxjs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index ab4b624..1553141 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -237,12 +237,13 @@ class NodeJSEngine(JSEngine):
         rselect: list[BytesIO] = [nodejs.stdout, nodejs.stderr]
         wselect: list[BytesIO] = [nodejs.stdin]
 
+        # compare bytes: the buffers can end in the middle of a character
+        finished_bytes = self.process_finished_str.encode("utf-8")
+
         def process_finished() -> bool:
-            return stdout_buf.getvalue().decode("utf-8").endswith(
-                self.process_finished_str
-            ) and stderr_buf.getvalue().decode("utf-8").endswith(
-                self.process_finished_str
-            )
+            return stdout_buf.getvalue().endswith(
+                finished_bytes
+            ) and stderr_buf.getvalue().endswith(finished_bytes)
 
         while not process_finished() and timer.is_alive():
             rready, wready, _ = select.select(rselect, wselect, [])
-- 
2.43.0


From 09fee55d30617fef03d9f8390e853db370b8a2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 010/121] fix: a killed or dead JavaScript engine is reported
 at once and never reused

---
 src/cwl_utils/sandboxjs.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 1553141..5cf9e03 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -245,7 +245,7 @@ class NodeJSEngine(JSEngine):
                 finished_bytes
             ) and stderr_buf.getvalue().endswith(finished_bytes)
 
-        while not process_finished() and timer.is_alive():
+        while not process_finished() and rselect and timer.is_alive():
             rready, wready, _ = select.select(rselect, wselect, [])
             try:
                 if nodejs.stdin in wready:
@@ -257,9 +257,16 @@ class NodeJSEngine(JSEngine):
                         buf = os.read(pipes[0].fileno(), select.PIPE_BUF)
                         if buf:
                             pipes[1].write(buf)
+                        else:
+                            rselect.remove(pipes[0])
             except OSError:
                 break
         timer.cancel()
+        timer.join()
+        if killed or not process_finished():
+            # The engine was killed or has died: no other evaluation may meet it.
+            nodejs.kill()
+            nodejs.wait()
 
         stdin_buf.close()
         stdoutdata = stdout_buf.getvalue()[: -len(self.process_finished_str) - 1]
@@ -275,7 +282,12 @@ class NodeJSEngine(JSEngine):
         else:
             returncode = 0
 
-        return returncode, stdoutdata.decode("utf-8"), stderrdata.decode("utf-8")
+        # the output of a killed engine can end in the middle of a character
+        return (
+            returncode,
+            stdoutdata.decode("utf-8", "replace"),
+            stderrdata.decode("utf-8", "replace"),
+        )
 
     def new_js_proc(
         self,
-- 
2.43.0


From ae6993a495f1b45a540bd155d1deedee4c904c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 011/121] fix: an evaluation interrupted by an exception does
 not leave its engine to the next one

---
 src/cwl_utils/sandboxjs.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 5cf9e03..4a208ff 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -190,29 +190,22 @@ class NodeJSEngine(JSEngine):
 
         created_new_process = False
 
-        if context is not None:
-            nodejs = self.localdata.procs.get((js_engine, context))
-        else:
-            nodejs = self.localdata.procs.get(js_engine)
+        # Taken out while in use: an engine whose evaluation was interrupted by an
+        # exception still has that evaluation's output to give.
+        proc_key = js_engine if context is None else (js_engine, context)
+        nodejs = self.localdata.procs.pop(proc_key, None)
 
         if nodejs is None or nodejs.poll() is not None:
             js_engine_code = files("cwl_utils").joinpath(js_engine).read_text("utf-8")
 
             created_new_process = True
 
-            new_proc = self.new_js_proc(
+            nodejs = self.new_js_proc(
                 js_engine_code,
                 force_docker_pull=force_docker_pull,
                 container_engine=container_engine,
             )
 
-            if context is None:
-                self.localdata.procs[js_engine] = new_proc
-                nodejs = new_proc
-            else:
-                self.localdata.procs[(js_engine, context)] = new_proc
-                nodejs = new_proc
-
         killed = []
 
         def terminate() -> None:
@@ -274,6 +267,9 @@ class NodeJSEngine(JSEngine):
 
         nodejs.poll()
 
+        if nodejs.poll() is None:
+            self.localdata.procs[proc_key] = nodejs
+
         if nodejs.poll() not in (None, 0):
             if killed:
                 returncode = -1
-- 
2.43.0


From c1b4f6fa92149d178e8210ff105abe68fc19ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 012/121] fix: JavaScript expressions cannot reach the engine's
 own objects, nor leave promise callbacks behind

---
 src/cwl_utils/cwlNodeEngine.js            | 5 ++++-
 src/cwl_utils/cwlNodeEngineWithContext.js | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/cwlNodeEngine.js b/src/cwl_utils/cwlNodeEngine.js
index b3b6ff8..51ea6fd 100755
--- a/src/cwl_utils/cwlNodeEngine.js
+++ b/src/cwl_utils/cwlNodeEngine.js
@@ -1,6 +1,9 @@
 "use strict";
 process.stdin.setEncoding("utf8");
 var incoming = "";
+/*promise callbacks run as part of the evaluation that made them*/
+var vmOptions = {microtaskMode: "afterEvaluate"};
+process.on("unhandledRejection", function() {});
 process.stdin.on("data", function(chunk) {
   incoming += chunk;
   var i = incoming.indexOf("\n");
@@ -8,7 +11,7 @@ process.stdin.on("data", function(chunk) {
     try{
       var fn = JSON.parse(incoming.substr(0, i));
       incoming = incoming.substr(i+1);
-      process.stdout.write(JSON.stringify(require("vm").runInNewContext(fn, {})) + "\n");
+      process.stdout.write(JSON.stringify(require("vm").runInNewContext(fn, Object.create(null), vmOptions)) + "\n");
     }
     catch(e){
       console.error(e)
diff --git a/src/cwl_utils/cwlNodeEngineWithContext.js b/src/cwl_utils/cwlNodeEngineWithContext.js
index f3d5148..c178d2f 100644
--- a/src/cwl_utils/cwlNodeEngineWithContext.js
+++ b/src/cwl_utils/cwlNodeEngineWithContext.js
@@ -13,7 +13,7 @@ process.stdin.on("data", function(chunk) {
       incoming = incoming.substr(i+1);
       var fn = JSON.parse(input);
       if(firstInput){
-        context = require("vm").runInNewContext(fn, {});
+        context = require("vm").runInNewContext(fn, Object.create(null));
       }
       else{
         process.stdout.write(JSON.stringify(require("vm").runInNewContext(fn, context)) + "\n");
-- 
2.43.0


From b7523e771bfe75d2846f98966fd07a69e6635e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 013/121] fix: the JavaScript console does not hand the
 engine's own functions to expressions

---
 src/cwl_utils/cwlNodeEngineJSConsole.js | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/cwlNodeEngineJSConsole.js b/src/cwl_utils/cwlNodeEngineJSConsole.js
index 2ebe8bd..2eb8ef3 100644
--- a/src/cwl_utils/cwlNodeEngineJSConsole.js
+++ b/src/cwl_utils/cwlNodeEngineJSConsole.js
@@ -5,6 +5,24 @@ function js_console_log(){
 function js_console_err(){
     console.error("[err] "+require("util").format.apply(this, arguments).split("\n").join("\n[err] "));
 }
+/*run inside the new context, so that expressions only get objects of their own context*/
+var setup = "(function(log, err) {" +
+    "console = {" +
+    "log: function() { try { log(arguments); } catch (e) {} }," +
+    "error: function() { try { err(arguments); } catch (e) {} }" +
+    "};})";
+function new_context(){
+    var vm = require("vm");
+    var context = vm.createContext(Object.create(null), vmOptions);
+    vm.runInContext(setup, context)(
+        function(args){ js_console_log.apply(null, args); },
+        function(args){ js_console_err.apply(null, args); }
+    );
+    return context;
+}
+/*promise callbacks run as part of the evaluation that made them*/
+var vmOptions = {microtaskMode: "afterEvaluate"};
+process.on("unhandledRejection", function() {});
 process.stdin.setEncoding("utf8");
 var incoming = "";
 process.stdin.on("data", function(chunk) {
@@ -14,12 +32,7 @@ process.stdin.on("data", function(chunk) {
       try{
         var fn = JSON.parse(incoming.substr(0, i));
         incoming = incoming.substr(i+1);
-        process.stdout.write(JSON.stringify(require("vm").runInNewContext(fn, {
-        console: {
-            log: js_console_log, 
-            error: js_console_err
-        }
-        })) + "\n");
+        process.stdout.write(JSON.stringify(require("vm").runInContext(fn, new_context())) + "\n");
     }
     catch(e){
         console.error(e)
-- 
2.43.0


From 484c1ce3fc3093c1d26caaf9716fc36076033afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 014/121] fix: objects printed by the JavaScript engine do not
 get its own functions

---
 src/cwl_utils/cwlNodeEngine.js            | 4 ++++
 src/cwl_utils/cwlNodeEngineJSConsole.js   | 4 ++++
 src/cwl_utils/cwlNodeEngineWithContext.js | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/cwl_utils/cwlNodeEngine.js b/src/cwl_utils/cwlNodeEngine.js
index 51ea6fd..61429d3 100755
--- a/src/cwl_utils/cwlNodeEngine.js
+++ b/src/cwl_utils/cwlNodeEngine.js
@@ -1,4 +1,8 @@
 "use strict";
+/*the custom inspection functions of printed objects would be given the engine's own*/
+if (require("util").inspect.defaultOptions) {
+  require("util").inspect.defaultOptions = {customInspect: false};
+}
 process.stdin.setEncoding("utf8");
 var incoming = "";
 /*promise callbacks run as part of the evaluation that made them*/
diff --git a/src/cwl_utils/cwlNodeEngineJSConsole.js b/src/cwl_utils/cwlNodeEngineJSConsole.js
index 2eb8ef3..1805225 100644
--- a/src/cwl_utils/cwlNodeEngineJSConsole.js
+++ b/src/cwl_utils/cwlNodeEngineJSConsole.js
@@ -23,6 +23,10 @@ function new_context(){
 /*promise callbacks run as part of the evaluation that made them*/
 var vmOptions = {microtaskMode: "afterEvaluate"};
 process.on("unhandledRejection", function() {});
+/*the custom inspection functions of printed objects would be given the engine's own*/
+if (require("util").inspect.defaultOptions) {
+  require("util").inspect.defaultOptions = {customInspect: false};
+}
 process.stdin.setEncoding("utf8");
 var incoming = "";
 process.stdin.on("data", function(chunk) {
diff --git a/src/cwl_utils/cwlNodeEngineWithContext.js b/src/cwl_utils/cwlNodeEngineWithContext.js
index c178d2f..21f1bdc 100644
--- a/src/cwl_utils/cwlNodeEngineWithContext.js
+++ b/src/cwl_utils/cwlNodeEngineWithContext.js
@@ -1,4 +1,8 @@
 "use strict";
+/*the custom inspection functions of printed objects would be given the engine's own*/
+if (require("util").inspect.defaultOptions) {
+  require("util").inspect.defaultOptions = {customInspect: false};
+}
 process.stdin.setEncoding("utf8");
 var incoming = "";
 var firstInput = true;
-- 
2.43.0


From b8028f9774b77014376d091a1abff382794b6c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 015/121] fix: a strict type comparison stays strict inside
 unions

---
 src/cwl_utils/parser/cwl_v1_1_utils.py | 6 +++---
 src/cwl_utils/parser/utils.py          | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 838922e..c2ced3d 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -161,16 +161,16 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
     if isinstance(src, MutableSequence):
         if strict:
             for this_src in src:
-                if not can_assign_src_to_sink(this_src, sink):
+                if not can_assign_src_to_sink(this_src, sink, strict):
                     return False
             return True
         for this_src in src:
-            if this_src != "null" and can_assign_src_to_sink(this_src, sink):
+            if this_src != "null" and can_assign_src_to_sink(this_src, sink, strict):
                 return True
         return False
     if isinstance(sink, MutableSequence):
         for this_sink in sink:
-            if can_assign_src_to_sink(src, this_sink):
+            if can_assign_src_to_sink(src, this_sink, strict):
                 return True
         return False
     return bool(src == sink)
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 2669616..5823ef8 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -96,16 +96,16 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
     if isinstance(src, MutableSequence):
         if strict:
             for this_src in src:
-                if not can_assign_src_to_sink(this_src, sink):
+                if not can_assign_src_to_sink(this_src, sink, strict):
                     return False
             return True
         for this_src in src:
-            if this_src != "null" and can_assign_src_to_sink(this_src, sink):
+            if this_src != "null" and can_assign_src_to_sink(this_src, sink, strict):
                 return True
         return False
     if isinstance(sink, MutableSequence):
         for this_sink in sink:
-            if can_assign_src_to_sink(src, this_sink):
+            if can_assign_src_to_sink(src, this_sink, strict):
                 return True
         return False
     return bool(src == sink)
-- 
2.43.0


From 130d77d10009d9e1cfc66a4f14f64751a84fabe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 016/121] fix: enumerations declared in different places are
 compared by their symbols

---
 src/cwl_utils/parser/cwl_v1_1_utils.py | 9 ++++++++-
 src/cwl_utils/parser/utils.py          | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index c2ced3d..e0390be 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -9,7 +9,7 @@ from typing import IO, Any, cast
 from urllib.parse import urldefrag
 
 from schema_salad.exceptions import ValidationException
-from schema_salad.metaschema import ArraySchema, RecordSchema
+from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema
 from schema_salad.runtime import shortname, LoadingOptions, file_uri, save
 from schema_salad.sourceline import SourceLine, add_lc_filename
 from schema_salad.utils import aslist, json_dumps, yaml_no_ts
@@ -158,6 +158,13 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
         return can_assign_src_to_sink(src.items, sink.items, strict)
     if isinstance(src, RecordSchema) and isinstance(sink, RecordSchema):
         return _compare_records(src, sink, strict)
+    if isinstance(src, EnumSchema) and isinstance(sink, EnumSchema):
+        # symbols are URIs relative to the place of the declaration
+        src_symbols = {shortname(symbol) for symbol in src.symbols}
+        sink_symbols = {shortname(symbol) for symbol in sink.symbols}
+        if strict:
+            return src_symbols <= sink_symbols
+        return not src_symbols.isdisjoint(sink_symbols)
     if isinstance(src, MutableSequence):
         if strict:
             for this_src in src:
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 5823ef8..3963481 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -8,7 +8,7 @@ from typing import Any, cast, Literal
 from urllib.parse import unquote_plus, urlparse
 
 from schema_salad.exceptions import ValidationException
-from schema_salad.metaschema import ArraySchema, RecordSchema
+from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema
 from schema_salad.runtime import file_uri, shortname, save
 from schema_salad.sourceline import SourceLine, strip_dup_lineno
 from schema_salad.utils import json_dumps, yaml_no_ts
@@ -93,6 +93,13 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
         return can_assign_src_to_sink(src.items, sink.items, strict)
     if isinstance(src, RecordSchema) and isinstance(sink, RecordSchema):
         return _compare_records(src, sink, strict)
+    if isinstance(src, EnumSchema) and isinstance(sink, EnumSchema):
+        # symbols are URIs relative to the place of the declaration
+        src_symbols = {shortname(symbol) for symbol in src.symbols}
+        sink_symbols = {shortname(symbol) for symbol in sink.symbols}
+        if strict:
+            return src_symbols <= sink_symbols
+        return not src_symbols.isdisjoint(sink_symbols)
     if isinstance(src, MutableSequence):
         if strict:
             for this_src in src:
-- 
2.43.0


From a7d4a4d317216816378378564e84b20c4e70ef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 017/121] fix: arrays are compared with the other type, not
 with themselves

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2_utils.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index f80c74b..58d404b 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -27,7 +27,7 @@ SrcSink = namedtuple("SrcSink", ["src", "sink", "linkMerge", "message"])
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index e0390be..1d01aee 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -58,7 +58,7 @@ def _compare_records(
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index e0f94e2..323910e 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -28,7 +28,7 @@ SrcSink = namedtuple("SrcSink", ["src", "sink", "linkMerge", "message"])
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
-- 
2.43.0


From a3ab1dccefee7da9eb91818b86dd8db31f61f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 018/121] fix: type_for_source() of several sources keeps
 scattered and union types apart

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 24 +++++++++---------------
 src/cwl_utils/parser/cwl_v1_1_utils.py | 24 +++++++++---------------
 src/cwl_utils/parser/cwl_v1_2_utils.py | 24 +++++++++---------------
 3 files changed, 27 insertions(+), 45 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 58d404b..bd64828 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -332,22 +332,16 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
-            cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
-            cur_type = p.type_
-        else:
-            cur_type = None
-        if cur_type is not None:
-            if sc is not None:
-                if sc[1] == "nested_crossproduct":
-                    for _ in range(sc[0]):
-                        cur_type = ArraySchema(items=cur_type, type_="array")
-                else:
+        cur_type = p if isinstance(p, str) else p.type_
+        if sc is not None:
+            if sc[1] == "nested_crossproduct":
+                for _ in range(sc[0]):
                     cur_type = ArraySchema(items=cur_type, type_="array")
-            new_type.append(cur_type)
+            else:
+                cur_type = ArraySchema(items=cur_type, type_="array")
+        for t in aslist(cur_type):
+            if not any(_compare_type(t2, t) for t2 in new_type):
+                new_type.append(t)
     if len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 1d01aee..15ab9dd 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -421,22 +421,16 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
-            cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
-            cur_type = p.type_
-        else:
-            cur_type = None
-        if cur_type is not None:
-            if sc is not None:
-                if sc[1] == "nested_crossproduct":
-                    for _ in range(sc[0]):
-                        cur_type = ArraySchema(items=cur_type, type_="array")
-                else:
+        cur_type = p if isinstance(p, str) else p.type_
+        if sc is not None:
+            if sc[1] == "nested_crossproduct":
+                for _ in range(sc[0]):
                     cur_type = ArraySchema(items=cur_type, type_="array")
-            new_type.append(cur_type)
+            else:
+                cur_type = ArraySchema(items=cur_type, type_="array")
+        for t in aslist(cur_type):
+            if not any(_compare_type(t2, t) for t2 in new_type):
+                new_type.append(t)
     if len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 323910e..319bc00 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -447,22 +447,16 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
-            cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
-            cur_type = p.type_
-        else:
-            cur_type = None
-        if cur_type is not None:
-            if sc is not None:
-                if sc[1] == "nested_crossproduct":
-                    for _ in range(sc[0]):
-                        cur_type = ArraySchema(items=cur_type, type_="array")
-                else:
+        cur_type = p if isinstance(p, str) else p.type_
+        if sc is not None:
+            if sc[1] == "nested_crossproduct":
+                for _ in range(sc[0]):
                     cur_type = ArraySchema(items=cur_type, type_="array")
-            new_type.append(cur_type)
+            else:
+                cur_type = ArraySchema(items=cur_type, type_="array")
+        for t in aslist(cur_type):
+            if not any(_compare_type(t2, t) for t2 in new_type):
+                new_type.append(t)
     if len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
-- 
2.43.0


From 29200252abf4ce7936dbbfb0a864e4aaeddbd8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:53 +0000
Subject: [PATCH 019/121] fix: type_for_source() infers one array type for
 merge_flattened over several sources

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 12 +++++++++++-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 12 +++++++++++-
 src/cwl_utils/parser/cwl_v1_2_utils.py | 12 +++++++++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index bd64828..3b5bea4 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -110,6 +110,16 @@ def _inputfile_load(
             )
 
 
+def _merged_items_type(src: Any) -> ArraySchema:
+    """Return the type of the flattened list of all sources of the given types."""
+    items: list[Any] = []
+    for flattened in aslist(cwl_utils.parser.utils.merge_flatten_type(src)):
+        for item in aslist(flattened.items):
+            if not any(_compare_type(t, item) for t in items):
+                items.append(item)
+    return ArraySchema(items=items[0] if len(items) == 1 else items, type_="array")
+
+
 def check_all_types(
     src_dict: dict[str, Any],
     sinks: MutableSequence[cwl.WorkflowStepInput | cwl.WorkflowOutputParameter],
@@ -347,7 +357,7 @@ def type_for_source(
     if linkMerge == "merge_nested":
         return ArraySchema(items=new_type, type_="array")
     elif linkMerge == "merge_flattened":
-        return cwl_utils.parser.utils.merge_flatten_type(new_type)
+        return _merged_items_type(new_type)
     elif isinstance(sourcenames, list) and len(sourcenames) > 1:
         return ArraySchema(items=new_type, type_="array")
     return new_type
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 15ab9dd..c6c4e32 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -183,6 +183,16 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
     return bool(src == sink)
 
 
+def _merged_items_type(src: Any) -> ArraySchema:
+    """Return the type of the flattened list of all sources of the given types."""
+    items: list[Any] = []
+    for flattened in aslist(cwl_utils.parser.utils.merge_flatten_type(src)):
+        for item in aslist(flattened.items):
+            if not any(_compare_type(t, item) for t in items):
+                items.append(item)
+    return ArraySchema(items=items[0] if len(items) == 1 else items, type_="array")
+
+
 def check_all_types(
     src_dict: dict[str, Any],
     sinks: MutableSequence[cwl.WorkflowStepInput | cwl.WorkflowOutputParameter],
@@ -436,7 +446,7 @@ def type_for_source(
     if linkMerge == "merge_nested":
         return ArraySchema(items=new_type, type_="array")
     elif linkMerge == "merge_flattened":
-        return cwl_utils.parser.utils.merge_flatten_type(new_type)
+        return _merged_items_type(new_type)
     elif isinstance(sourcenames, list) and len(sourcenames) > 1:
         return ArraySchema(items=new_type, type_="array")
     else:
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 319bc00..675eb7e 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -130,6 +130,16 @@ def _inputfile_load(
             )
 
 
+def _merged_items_type(src: Any) -> ArraySchema:
+    """Return the type of the flattened list of all sources of the given types."""
+    items: list[Any] = []
+    for flattened in aslist(cwl_utils.parser.utils.merge_flatten_type(src)):
+        for item in aslist(flattened.items):
+            if not any(_compare_type(t, item) for t in items):
+                items.append(item)
+    return ArraySchema(items=items[0] if len(items) == 1 else items, type_="array")
+
+
 def check_all_types(
     src_dict: dict[str, Any],
     sinks: MutableSequence[cwl.WorkflowStepInput | cwl.WorkflowOutputParameter],
@@ -462,7 +472,7 @@ def type_for_source(
     if linkMerge == "merge_nested":
         new_type = ArraySchema(items=new_type, type_="array")
     elif linkMerge == "merge_flattened":
-        new_type = cwl_utils.parser.utils.merge_flatten_type(new_type)
+        new_type = _merged_items_type(new_type)
     elif isinstance(sourcenames, list) and len(sourcenames) > 1:
         new_type = ArraySchema(items=new_type, type_="array")
     if pickValue is not None:
-- 
2.43.0


From 63fe10102ecdf28b0f38253b8d24bff6a2d6bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 020/121] fix: type_for_source() takes null out of the type
 that pickValue leaves

---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 675eb7e..8cc9c4e 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -140,6 +140,20 @@ def _merged_items_type(src: Any) -> ArraySchema:
     return ArraySchema(items=items[0] if len(items) == 1 else items, type_="array")
 
 
+def _picked_type(src: Any, pickValue: str | None) -> Any:
+    """Return the type of what pickValue selects from a list of the given type."""
+    if pickValue is None or not isinstance(src, ArraySchema):
+        return src
+    items = src.items
+    if isinstance(items, MutableSequence):
+        items = [t for t in items if t != "null"] or "null"
+        if len(items) == 1:
+            items = items[0]
+    if pickValue in ("first_non_null", "the_only_non_null"):
+        return items
+    return ArraySchema(items=items, type_="array")
+
+
 def check_all_types(
     src_dict: dict[str, Any],
     sinks: MutableSequence[cwl.WorkflowStepInput | cwl.WorkflowOutputParameter],
@@ -450,11 +464,7 @@ def type_for_source(
             new_type = ArraySchema(items=new_type, type_="array")
         elif linkMerge == "merge_flattened":
             new_type = cwl_utils.parser.utils.merge_flatten_type(new_type)
-        if pickValue is not None:
-            if isinstance(new_type, ArraySchema):
-                if pickValue in ("first_non_null", "the_only_non_null"):
-                    new_type = new_type.items
-        return new_type
+        return _picked_type(new_type, pickValue)
     new_type = []
     for p, sc in zip(params, scatter_context):
         cur_type = p if isinstance(p, str) else p.type_
@@ -475,8 +485,4 @@ def type_for_source(
         new_type = _merged_items_type(new_type)
     elif isinstance(sourcenames, list) and len(sourcenames) > 1:
         new_type = ArraySchema(items=new_type, type_="array")
-    if pickValue is not None:
-        if isinstance(new_type, ArraySchema):
-            if pickValue in ("first_non_null", "the_only_non_null"):
-                new_type = new_type.items
-    return new_type
+    return _picked_type(new_type, pickValue)
-- 
2.43.0


From cb7d98b2a8aafb966fbc603061c244b00761fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 021/121] fix: param_for_source_id() reports every source it
 cannot resolve

---
 src/cwl_utils/parser/utils.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 3963481..bfff83d 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -280,6 +280,7 @@ def param_for_source_id(
         CommandInputParameter | CommandOutputParameter | WorkflowInputParameter
     ] = []
     for sourcename in sourcenames:
+        found = len(params)
         if not isinstance(process, Workflow):
             for param in process.inputs:
                 if param.id.split("#")[-1] == sourcename.split("#")[-1]:
@@ -339,17 +340,19 @@ def param_for_source_id(
                                                         )
                                                     else:
                                                         scatter_context.append(None)
-    if len(params) == 1:
-        return params[0]
-    elif len(params) > 1:
-        return params
-    raise WorkflowException(
-        "param {} not found in {}\n{}.".format(
-            sourcename,
-            yaml_dumps(save(process)),
-            (f" or\n {yaml_dumps(save(parent))}" if parent is not None else ""),
-        )
-    )
+        if len(params) == found:
+            raise WorkflowException(
+                "param {} not found in {}\n{}.".format(
+                    sourcename,
+                    yaml_dumps(save(process)),
+                    (
+                        f" or\n {yaml_dumps(save(parent))}"
+                        if parent is not None
+                        else ""
+                    ),
+                )
+            )
+    return params[0] if len(params) == 1 else params
 
 
 def static_checker(workflow: Workflow) -> None:
-- 
2.43.0


From 1b3c3e0b5145da10e8946ac3425d8da44d790ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 022/121] fix: type_for_step_input() finds the input of the
 step's process

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2_utils.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 3b5bea4..494aba7 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -279,7 +279,7 @@ def type_for_step_input(
     cwl_utils.parser.utils.convert_stdstreams_to_files(step_run)
     if step_run and step_run.inputs:
         for step_input in step_run.inputs:
-            if cast(str, step_input.id).split("#")[-1] == in_.id.split("#")[-1]:
+            if shortname(cast(str, step_input.id)) == shortname(in_.id):
                 input_type = step_input.type_
                 if step.scatter is not None and in_.id in aslist(step.scatter):
                     input_type = ArraySchema(items=input_type, type_="array")
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index c6c4e32..968b01d 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -368,7 +368,7 @@ def type_for_step_input(
     cwl_utils.parser.utils.convert_stdstreams_to_files(step_run)
     if step_run and step_run.inputs:
         for step_input in step_run.inputs:
-            if cast(str, step_input.id).split("#")[-1] == in_.id.split("#")[-1]:
+            if shortname(cast(str, step_input.id)) == shortname(in_.id):
                 input_type = step_input.type_
                 if step.scatter is not None and in_.id in aslist(step.scatter):
                     input_type = ArraySchema(items=input_type, type_="array")
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 8cc9c4e..5b3bc7f 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -403,7 +403,7 @@ def type_for_step_input(
     cwl_utils.parser.utils.convert_stdstreams_to_files(step_run)
     if step_run and step_run.inputs:
         for step_input in step_run.inputs:
-            if cast(str, step_input.id).split("#")[-1] == in_.id.split("#")[-1]:
+            if shortname(cast(str, step_input.id)) == shortname(in_.id):
                 input_type = step_input.type_
                 if step.scatter is not None and in_.id in aslist(step.scatter):
                     input_type = ArraySchema(items=input_type, type_="array")
-- 
2.43.0


From 946b5b25d2916479b55e4e76eb08b030fcb7dfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 023/121] fix: static_checker() reports required step inputs
 that get no value

---
 src/cwl_utils/parser/utils.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index bfff83d..18bbfc8 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -11,7 +11,7 @@ from schema_salad.exceptions import ValidationException
 from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema
 from schema_salad.runtime import file_uri, shortname, save
 from schema_salad.sourceline import SourceLine, strip_dup_lineno
-from schema_salad.utils import json_dumps, yaml_no_ts
+from schema_salad.utils import aslist, json_dumps, yaml_no_ts
 
 import cwl_utils
 from cwl_utils.parser import (
@@ -355,6 +355,14 @@ def param_for_source_id(
     return params[0] if len(params) == 1 else params
 
 
+def _needs_value(step: WorkflowStep, in_: WorkflowStepInput) -> bool:
+    """Tell if the step's process requires a value for the given step input."""
+    for param in load_step(step).inputs:
+        if shortname(param.id) == shortname(in_.id):
+            return param.default is None and "null" not in aslist(param.type_)
+    return False
+
+
 def static_checker(workflow: Workflow) -> None:
     """Check if all source and sink types of a workflow are compatible before run time."""
     step_inputs = []
@@ -506,11 +514,7 @@ def static_checker(workflow: Workflow) -> None:
 
     for sink in step_inputs:
         if (
-            "null" != type_dict[sink.id]
-            and not (
-                isinstance(type_dict[sink.id], MutableSequence)
-                and "null" in type_dict[sink.id]
-            )
+            _needs_value(param_to_step[sink.id], sink)
             and getattr(sink, "source", None) is None
             and getattr(sink, "default", None) is None
             and getattr(sink, "valueFrom", None) is None
@@ -526,7 +530,7 @@ def static_checker(workflow: Workflow) -> None:
 
     if all_warning_msg:
         _logger.warning("Workflow checker warning:\n%s", all_warning_msg)
-    if exceptions:
+    if exception_msgs:
         raise ValidationException(all_exception_msg)
 
 
-- 
2.43.0


From 88d2b16b3d00819c564b7a94cdb0826b10aeba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 024/121] fix: a missing source in a list of sources is a
 validation error, not a KeyError

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 4 ++++
 src/cwl_utils/parser/cwl_v1_1_utils.py | 4 ++++
 src/cwl_utils/parser/cwl_v1_2_utils.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 494aba7..2287e35 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -144,6 +144,10 @@ def check_all_types(
                 )
                 srcs_of_sink = []
                 for parm_id in sourceField:
+                    if parm_id not in src_dict:
+                        raise SourceLine(
+                            sink, sourceName, ValidationException
+                        ).makeError(f"{sourceName} not found: {parm_id}")
                     srcs_of_sink += [src_dict[parm_id]]
             else:
                 parm_id = cast(str, sourceField)
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 968b01d..9d3ddab 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -217,6 +217,10 @@ def check_all_types(
                 )
                 srcs_of_sink = []
                 for parm_id in sourceField:
+                    if parm_id not in src_dict:
+                        raise SourceLine(
+                            sink, sourceName, ValidationException
+                        ).makeError(f"{sourceName} not found: {parm_id}")
                     srcs_of_sink += [src_dict[parm_id]]
             else:
                 parm_id = cast(str, sourceField)
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 5b3bc7f..06537c0 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -185,6 +185,10 @@ def check_all_types(
                     linkMerge = None
                 srcs_of_sink = []
                 for parm_id in sourceField:
+                    if parm_id not in src_dict:
+                        raise SourceLine(
+                            sink, sourceName, ValidationException
+                        ).makeError(f"{sourceName} not found: {parm_id}")
                     srcs_of_sink += [src_dict[parm_id]]
                     if (
                         _is_conditional_step(param_to_step, parm_id)
-- 
2.43.0


From 9aad00882fae77cad46bf1b40ef8efa1bde5be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 025/121] fix: the static checker honours linkMerge of a single
 source, too

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2_utils.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 2287e35..d05f8ce 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -156,7 +156,7 @@ def check_all_types(
                         f"{sourceName} not found: {parm_id}"
                     )
                 srcs_of_sink = [src_dict[parm_id]]
-                linkMerge = None
+                linkMerge = sink.linkMerge
             for src in srcs_of_sink:
                 check_result = cwl_utils.parser.utils.check_types(
                     type_dict[cast(str, src.id)],
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 9d3ddab..f5f03fa 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -229,7 +229,7 @@ def check_all_types(
                         f"{sourceName} not found: {parm_id}"
                     )
                 srcs_of_sink = [src_dict[parm_id]]
-                linkMerge = None
+                linkMerge = sink.linkMerge
             for src in srcs_of_sink:
                 check_result = cwl_utils.parser.utils.check_types(
                     type_dict[cast(str, src.id)],
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 06537c0..5bdd2f0 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -225,7 +225,7 @@ def check_all_types(
                         f"{sourceName} not found: {parm_id}"
                     )
                 srcs_of_sink = [src_dict[parm_id]]
-                linkMerge = None
+                linkMerge = sink.linkMerge
                 if sink.pickValue is not None:
                     validation["warning"].append(
                         SrcSink(
-- 
2.43.0


From 2e791788fec44a5ecb53b3dad52a2f279612ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 026/121] fix: the static checker applies pickValue after
 linkMerge

---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 5bdd2f0..74e8c72 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -181,8 +181,6 @@ def check_all_types(
                 linkMerge: str | None = sink.linkMerge or (
                     "merge_nested" if len(sourceField) > 1 else None
                 )
-                if sink.pickValue in ("first_non_null", "the_only_non_null"):
-                    linkMerge = None
                 srcs_of_sink = []
                 for parm_id in sourceField:
                     if parm_id not in src_dict:
@@ -258,11 +256,21 @@ def check_all_types(
                     type_dict[src_dict[parm_id].id] = ArraySchema(
                         items=src_typ, type_="array"
                     )
+            picks_one = sink.pickValue in ("first_non_null", "the_only_non_null")
+            if picks_one and linkMerge == "merge_nested":
+                # picks one of the sources
+                linkMerge, picks_one = None, False
             for src in srcs_of_sink:
+                src_type = type_dict[cast(str, src.id)]
+                if picks_one:
+                    # picks one of the elements
+                    if linkMerge == "merge_flattened":
+                        src_type = _merged_items_type(src_type)
+                    src_type = _picked_type(src_type, sink.pickValue)
                 check_result = cwl_utils.parser.utils.check_types(
-                    type_dict[cast(str, src.id)],
+                    src_type,
                     sink_type,
-                    linkMerge,
+                    None if picks_one else linkMerge,
                     getattr(sink, "valueFrom", None),
                 )
                 if check_result in ("warning", "exception"):
-- 
2.43.0


From 9ffedec1ed01a9761562085494ef2735c1f503d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 027/121] fix: an empty list of sources does not break the
 static checker

---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 74e8c72..5453112 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -177,7 +177,7 @@ def check_all_types(
             case _:
                 continue
         if sourceField is not None:
-            if isinstance(sourceField, MutableSequence) and len(sourceField) > 1:
+            if isinstance(sourceField, MutableSequence) and len(sourceField) != 1:
                 linkMerge: str | None = sink.linkMerge or (
                     "merge_nested" if len(sourceField) > 1 else None
                 )
-- 
2.43.0


From 3bd0f4bcab96213da0315963132ade7afa52b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 028/121] fix: the output of a loop is an array once, however
 many sinks it has

---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 10 ----------
 src/cwl_utils/parser/utils.py          |  3 +++
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 5453112..5ae33e3 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -208,11 +208,6 @@ def check_all_types(
                                 )
                             )
                         type_dict[src_dict[parm_id].id] = src_typ
-                    if _is_all_output_method_loop_step(param_to_step, parm_id):
-                        src_typ = type_dict[src_dict[parm_id].id]
-                        type_dict[src_dict[parm_id].id] = ArraySchema(
-                            items=src_typ, type_="array"
-                        )
             else:
                 if isinstance(sourceField, MutableSequence):
                     parm_id = cast(str, sourceField[0])
@@ -251,11 +246,6 @@ def check_all_types(
                             )
                         )
                     type_dict[src_dict[parm_id].id] = src_typ
-                if _is_all_output_method_loop_step(param_to_step, parm_id):
-                    src_typ = type_dict[src_dict[parm_id].id]
-                    type_dict[src_dict[parm_id].id] = ArraySchema(
-                        items=src_typ, type_="array"
-                    )
             picks_one = sink.pickValue in ("first_non_null", "the_only_non_null")
             if picks_one and linkMerge == "merge_nested":
                 # picks one of the sources
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 18bbfc8..b5a5784 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -437,6 +437,9 @@ def static_checker(workflow: Workflow) -> None:
                 src_dict, workflow.outputs, type_dict
             )
         case "v1.2":
+            for s in step_outputs:
+                if cwl_v1_2_utils._is_all_output_method_loop_step(param_to_step, s.id):
+                    type_dict[s.id] = ArraySchema(items=type_dict[s.id], type_="array")
             step_inputs_val = cwl_v1_2_utils.check_all_types(
                 src_dict, step_inputs, param_to_step, type_dict
             )
-- 
2.43.0


From 138f38787823c59a24967e8dcd37c03414627aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 029/121] fix: pickValue applies to an array type spelled as a
 union of one, too

---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 5ae33e3..bf7251a 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -142,6 +142,8 @@ def _merged_items_type(src: Any) -> ArraySchema:
 
 def _picked_type(src: Any, pickValue: str | None) -> Any:
     """Return the type of what pickValue selects from a list of the given type."""
+    if isinstance(src, MutableSequence) and len(src) == 1:
+        src = src[0]
     if pickValue is None or not isinstance(src, ArraySchema):
         return src
     items = src.items
-- 
2.43.0


From e7c6304982bcf8c5b2ffac84c16470193af6bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 030/121] fix: comparing records does not need them to have
 names

---
 src/cwl_utils/parser/cwl_v1_1_utils.py |  4 ++--
 src/cwl_utils/parser/utils.py          | 12 ++----------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index f5f03fa..b1cf898 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -47,8 +47,8 @@ def _compare_records(
             _logger.info(
                 "Record comparison failure for %s and %s\n"
                 "Did not match fields for %s: %s and %s",
-                cast(cwl.InputRecordSchema | cwl.CommandOutputRecordSchema, src).name,
-                cast(cwl.InputRecordSchema | cwl.CommandOutputRecordSchema, sink).name,
+                getattr(src, "name", None),
+                getattr(sink, "name", None),
                 key,
                 srcfields.get(key),
                 sinkfields.get(key),
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index b5a5784..659b65f 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -26,8 +26,6 @@ from cwl_utils.parser import (
     cwl_v1_1_utils,
     cwl_v1_2,
     cwl_v1_2_utils,
-    InputRecordSchema,
-    CommandOutputRecordSchema,
     CommandInputParameter,
     CommandOutputParameter,
     WorkflowInputParameter,
@@ -60,14 +58,8 @@ def _compare_records(
             _logger.info(
                 "Record comparison failure for %s and %s\n"
                 "Did not match fields for %s: %s and %s",
-                cast(
-                    InputRecordSchema | CommandOutputRecordSchema,
-                    src,
-                ).name,
-                cast(
-                    InputRecordSchema | CommandOutputRecordSchema,
-                    sink,
-                ).name,
+                getattr(src, "name", None),
+                getattr(sink, "name", None),
                 key,
                 srcfields.get(key),
                 sinkfields.get(key),
-- 
2.43.0


From 2fafbc89ad6bcc4e1058270bbc499b4593107613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 031/121] fix: param_for_source_id() tells sources from
 parameters of the same name in other documents

---
 src/cwl_utils/parser/utils.py | 56 ++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 659b65f..c2f5dc4 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -272,13 +272,11 @@ def param_for_source_id(
         CommandInputParameter | CommandOutputParameter | WorkflowInputParameter
     ] = []
     for sourcename in sourcenames:
-        found = len(params)
+        matches: list[tuple[bool, Any, tuple[int, str] | None]] = []
         if not isinstance(process, Workflow):
             for param in process.inputs:
                 if param.id.split("#")[-1] == sourcename.split("#")[-1]:
-                    params.append(param)
-                    if scatter_context is not None:
-                        scatter_context.append(None)
+                    matches.append((param.id == sourcename, param, None))
         targets = [process]
         if parent:
             targets.append(parent)
@@ -286,9 +284,7 @@ def param_for_source_id(
             if isinstance(target, Workflow):
                 for inp in target.inputs:
                     if inp.id.split("#")[-1] == sourcename.split("#")[-1]:
-                        params.append(inp)
-                        if scatter_context is not None:
-                            scatter_context.append(None)
+                        matches.append((inp.id == sourcename, inp, None))
                 for step in target.steps:
                     if (
                         "/".join(sourcename.split("#")[-1].split("/")[:-1])
@@ -309,30 +305,28 @@ def param_for_source_id(
                                             output.id.split("#")[-1].split("/")[-1]
                                             == sourcename.split("#")[-1].split("/")[-1]
                                         ):
-                                            params.append(output)
-                                            if scatter_context is not None:
-                                                if scatter_context is not None:
-                                                    if isinstance(step.scatter, str):
-                                                        scatter_context.append(
-                                                            (
-                                                                1,
-                                                                step.scatterMethod
-                                                                or "dotproduct",
-                                                            )
-                                                        )
-                                                    elif isinstance(
-                                                        step.scatter, MutableSequence
-                                                    ):
-                                                        scatter_context.append(
-                                                            (
-                                                                len(step.scatter),
-                                                                step.scatterMethod
-                                                                or "dotproduct",
-                                                            )
-                                                        )
-                                                    else:
-                                                        scatter_context.append(None)
-        if len(params) == found:
+                                            context = None
+                                            if isinstance(step.scatter, str):
+                                                context = (
+                                                    1,
+                                                    step.scatterMethod or "dotproduct",
+                                                )
+                                            elif isinstance(
+                                                step.scatter, MutableSequence
+                                            ):
+                                                context = (
+                                                    len(step.scatter),
+                                                    step.scatterMethod or "dotproduct",
+                                                )
+                                            matches.append(
+                                                (outp_id == sourcename, output, context)
+                                            )
+        # a parameter of another document can have the same name
+        for _, match, context in [m for m in matches if m[0]] or matches:
+            params.append(match)
+            if scatter_context is not None:
+                scatter_context.append(context)
+        if not matches:
             raise WorkflowException(
                 "param {} not found in {}\n{}.".format(
                     sourcename,
-- 
2.43.0


From f2d6715df064e695c0b1839b2289aeb727d43f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 032/121] fix: pickValue applies to a union of equal array
 types, too

---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index bf7251a..625f83e 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -142,7 +142,11 @@ def _merged_items_type(src: Any) -> ArraySchema:
 
 def _picked_type(src: Any, pickValue: str | None) -> Any:
     """Return the type of what pickValue selects from a list of the given type."""
-    if isinstance(src, MutableSequence) and len(src) == 1:
+    if (
+        isinstance(src, MutableSequence)
+        and src
+        and all(_compare_type(t, src[0]) for t in src[1:])
+    ):
         src = src[0]
     if pickValue is None or not isinstance(src, ArraySchema):
         return src
-- 
2.43.0


From 0498e21606232f5126af6d046336a831c5befca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 033/121] fix: load_document_by_uri() of a Path takes a
 #fragment with a slash, too

---
 src/cwl_utils/parser/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index f6dc353..ce4dbb5 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -337,9 +337,9 @@ def load_document_by_uri(
     else:
         path = path.resolve()
         id_ = None
-        if "#" in path.name and not path.exists():
-            name, _, fragment = path.name.partition("#")
-            path = path.with_name(name)
+        if "#" in str(path) and not path.exists():
+            name, _, fragment = str(path).rpartition("#")
+            path = Path(name)
             id_ = fragment or None
         real_uri = path.as_uri()
         base_uri = path.parent.as_uri()
-- 
2.43.0


From 5d961af0339d8675edbb37881053e22278fe0974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:02 +0000
Subject: [PATCH 034/121] fix: pack() takes relative paths, file URIs and
 percent-encoded references

---
 src/cwl_utils/pack.py  |  6 ++++++
 src/cwl_utils/utils.py | 13 ++++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index c90dd50..62d99ab 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -17,6 +17,7 @@ From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b0033
 
 import urllib.parse
 from collections.abc import ItemsView
+from pathlib import Path
 from typing import TYPE_CHECKING, Any, Union, cast
 
 from packaging import version
@@ -261,6 +262,11 @@ def pack(cwl_path: str) -> dict[str, Any]:
     """Pack a CWL document at the given path."""
     _logger.debug("Packing %s", cwl_path)
     file_path_url = urllib.parse.urlparse(cwl_path)
+    if file_path_url.scheme == "":
+        path = Path(cwl_path)
+        if not path.exists():
+            path = Path(file_path_url.path)
+        file_path_url = urllib.parse.urlparse(path.absolute().as_uri())
 
     cwl, full_url = cast(
         tuple[dict[str, Any], urllib.parse.ParseResult],
diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index ffb2278..32f4f4d 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -42,7 +42,7 @@ def _is_github_symbolic_link(base_url: urllib.parse.ParseResult, contents: str)
 
     https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py
     """
-    if base_url.scheme in ("file://", ""):
+    if base_url.scheme in ("file", ""):
         return False
 
     idx = contents.find("\n")
@@ -86,8 +86,11 @@ def load_linked_file(
     """From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py ."""
     new_url = resolved_path(base_url, link)
 
-    if new_url.scheme in ("file://", ""):
-        contents = pathlib.Path(new_url.path).read_text()
+    if new_url.scheme in ("file", ""):
+        path = new_url.path
+        if new_url.scheme == "file":
+            path = urllib.parse.unquote(path)
+        contents = pathlib.Path(path).read_text(encoding="utf-8")
     else:
         try:
             contents = (
@@ -180,13 +183,13 @@ def resolved_path(
     link_url = urllib.parse.urlparse(link)
     # The link will always Posix
 
-    if link_url.scheme == "file://":
+    if link_url.scheme == "file":
         # Absolute local path
         return link_url
 
     elif link_url.scheme == "":
         # Relative path, can be local or remote
-        if base_url.scheme in ("file://", ""):
+        if base_url.scheme in ("file", ""):
             # Local relative path
             if link == "":
                 return base_url
-- 
2.43.0


From 34d77dc8b8957383a1b035899efe6657db5c63e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 035/121] fix: pack() resolves imports relative to the file
 that contains them

---
 src/cwl_utils/pack.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 62d99ab..d4f310f 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -179,9 +179,15 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
             if len(v) == 1:
                 _k = list(v.keys())[0]
                 if _k in ("$import", "$include"):
+                    if k == "run" and _k == "$import":
+                        # resolve_steps() will load it
+                        cwl[k] = v[_k]
+                        continue
                     cwl[k], this_base_url = utils.load_linked_file(
                         base_url, v[_k], is_import=_k == "$import"
                     )
+                    cwl[k] = resolve_imports(cwl[k], this_base_url)
+                    continue
 
         cwl[k] = resolve_imports(cwl[k], base_url)
 
-- 
2.43.0


From f18afa38c9e3442a53163fea02345cbe18dfa056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 036/121] fix: pack() normalizes lists of sources, too

---
 src/cwl_utils/pack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index d4f310f..2c28b55 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -118,6 +118,8 @@ def normalize_sources(cwl: dict[str, Any]) -> dict[str, Any]:
                 _src = _input.get("source")
                 if isinstance(_src, str):
                     _input["source"] = _normalize(_input["source"])
+                elif isinstance(_src, list):
+                    _input["source"] = [_normalize(_s) for _s in _src]
 
     _outputs = cwl.get("outputs", {})
     for k, _output in enumerate(_outputs):
@@ -127,6 +129,8 @@ def normalize_sources(cwl: dict[str, Any]) -> dict[str, Any]:
             _src = _output.get("outputSource")
             if isinstance(_src, str):
                 _output["outputSource"] = _normalize(_output["outputSource"])
+            elif isinstance(_src, list):
+                _output["outputSource"] = [_normalize(_s) for _s in _src]
 
     return cwl
 
-- 
2.43.0


From 001d4694e4faf93d5c716983e139f92f7c7fb7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 037/121] fix: pack() keeps dates as they are written

---
 src/cwl_utils/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 32f4f4d..51adaa6 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -14,6 +14,7 @@ from io import StringIO
 from typing import Any
 from urllib.parse import urlparse
 
+from ruamel.yaml.constructor import SafeConstructor
 from ruamel.yaml.main import YAML
 from ruamel.yaml.parser import ParserError
 from ruamel.yaml.scanner import ScannerError
@@ -28,7 +29,17 @@ from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2
 from cwl_utils.parser.cwl_v1_2 import InputArraySchema as InputArraySchemaV1_2
 from cwl_utils.parser.cwl_v1_2 import InputEnumSchema as InputEnumSchemaV1_2
 
+
+class _NoTimestampsConstructor(SafeConstructor):
+    """CWL documents have no timestamps: what looks like one is a string."""
+
+
+_NoTimestampsConstructor.add_constructor(
+    "tag:yaml.org,2002:timestamp", SafeConstructor.construct_yaml_str
+)
+
 fast_yaml = YAML(typ="safe")
+fast_yaml.Constructor = _NoTimestampsConstructor
 
 _USERNS: bool | None = None
 
-- 
2.43.0


From 5571bfc65fa0751c1f76c52df70ab46881707b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 038/121] fix: pack() moves the $namespaces and $schemas of the
 parts to the top

---
 src/cwl_utils/pack.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 2c28b55..cd0e137 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -228,6 +228,7 @@ def resolve_steps(
                     new_base_url,
                     cwl.get("cwlVersion", cwl_version),
                 )
+                hoist_metadata(cwl, v["run"], new_base_url)
             else:
                 v["run"] = pack_process(
                     v["run"],
@@ -247,6 +248,20 @@ def resolve_steps(
     return cwl
 
 
+def hoist_metadata(
+    cwl: dict[str, Any], run: dict[str, Any], run_url: urllib.parse.ParseResult
+) -> None:
+    """Move $namespaces and $schemas of a step's process to the workflow."""
+    namespaces = run.get("$namespaces", {})
+    present = cwl.get("$namespaces", {})
+    if namespaces and all(present.get(k, v) == v for k, v in namespaces.items()):
+        cwl["$namespaces"] = {**present, **run.pop("$namespaces")}
+    for schema in run.pop("$schemas", []):
+        schema = utils.resolved_path(run_url, schema).geturl()
+        if schema not in cwl.setdefault("$schemas", []):
+            cwl["$schemas"].append(schema)
+
+
 def add_missing_requirements(cwl: dict[str, Any]) -> dict[str, Any]:
     """Due to packing, we may need to add a "SubworkflowFeatureRequirement"."""
     requirements = cwl.get("requirements", [])
-- 
2.43.0


From 9d236927b27a90662c6327ecda27b1113bc5b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 039/121] fix: packing errors are ordinary exceptions

---
 src/cwl_utils/errors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/errors.py b/src/cwl_utils/errors.py
index c36aef6..ef26256 100644
--- a/src/cwl_utils/errors.py
+++ b/src/cwl_utils/errors.py
@@ -2,7 +2,7 @@
 """Common Exceptions."""
 
 
-class ArrayMissingItems(BaseException):
+class ArrayMissingItems(Exception):
     """From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py ."""
 
 
@@ -10,15 +10,15 @@ class JavascriptException(Exception):
     pass
 
 
-class MissingKeyField(BaseException):
+class MissingKeyField(Exception):
     """From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py ."""
 
 
-class MissingTypeName(BaseException):
+class MissingTypeName(Exception):
     """From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py ."""
 
 
-class RecordMissingFields(BaseException):
+class RecordMissingFields(Exception):
     """From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py ."""
 
 
-- 
2.43.0


From 81df3ac7a2726406acd06f54ae8a535304409067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:56 +0000
Subject: [PATCH 040/121] fix: the errors about incomplete types name the type

---
 src/cwl_utils/schemadef.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 9c72dd6..0981e78 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -208,7 +208,7 @@ def _inline_type(
         elif _type == "array":
             if "items" not in v:
                 raise errors.ArrayMissingItems(
-                    f"In file {base_url.geturl()}, array type {_type.get('name')} is missing 'items'"
+                    f"In file {base_url.geturl()}, array type {v.get('name')} is missing 'items'"
                 )
 
             v["items"] = _inline_type(v["items"], base_url, user_defined_types)
@@ -217,7 +217,7 @@ def _inline_type(
         elif _type == "record":
             if "fields" not in v:
                 raise errors.RecordMissingFields(
-                    f"In file {base_url.geturl()}, record type {_type.get('name')} is missing 'fields'"
+                    f"In file {base_url.geturl()}, record type {v.get('name')} is missing 'fields'"
                 )
 
             fields = utils.normalize_to_list(
-- 
2.43.0


From 4410ee86c60b5d01312660018292a21db4db0272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 041/121] fix: pack() moves the $namespaces of deeper parts to
 the top, too

---
 src/cwl_utils/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index cd0e137..f019994 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -228,14 +228,15 @@ def resolve_steps(
                     new_base_url,
                     cwl.get("cwlVersion", cwl_version),
                 )
-                hoist_metadata(cwl, v["run"], new_base_url)
             else:
+                new_base_url = base_url
                 v["run"] = pack_process(
                     v["run"],
                     base_url,
                     cwl.get("cwlVersion", cwl_version),
                     parent_user_defined_types,
                 )
+            hoist_metadata(cwl, v["run"], new_base_url)
             if "cwlVersion" in v["run"]:
                 parent_version = version.parse(
                     cwl.get("cwlVersion", cwl_version).strip("v")
-- 
2.43.0


From 562b32e96500ab26d987efa00e92c72b9ce83b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 042/121] fix: pack() accepts CWL v1.0 parameters without a
 type

---
 src/cwl_utils/schemadef.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 0981e78..2827331 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -128,7 +128,15 @@ def inline_types(
     else:
         defs = cwl[port]
 
-    cwl[port] = [_inline_type(v, base_url, user_defined_types) for v in defs]
+    cwl[port] = [
+        (
+            v
+            # CWL v1.0 parameters need no type
+            if isinstance(v, dict) and not {"type", "$import"} & set(v)
+            else _inline_type(v, base_url, user_defined_types)
+        )
+        for v in defs
+    ]
     return cwl
 
 
-- 
2.43.0


From f207ad9c55541ef8ce842ddc302421e74ed45b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 043/121] fix: pack() keeps the locations of default files of
 parts in other directories

---
 src/cwl_utils/pack.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index f019994..5d54c2b 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -15,6 +15,7 @@ used to fetch data
 From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py
 """
 
+import posixpath
 import urllib.parse
 from collections.abc import ItemsView
 from pathlib import Path
@@ -191,6 +192,7 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
                         base_url, v[_k], is_import=_k == "$import"
                     )
                     cwl[k] = resolve_imports(cwl[k], this_base_url)
+                    relocate_files(cwl[k], this_base_url, base_url)
                     continue
 
         cwl[k] = resolve_imports(cwl[k], base_url)
@@ -236,6 +238,7 @@ def resolve_steps(
                     cwl.get("cwlVersion", cwl_version),
                     parent_user_defined_types,
                 )
+            relocate_files(v["run"], new_base_url, base_url)
             hoist_metadata(cwl, v["run"], new_base_url)
             if "cwlVersion" in v["run"]:
                 parent_version = version.parse(
@@ -249,6 +252,36 @@ def resolve_steps(
     return cwl
 
 
+def relocate_files(
+    value: Any, old_base: urllib.parse.ParseResult, new_base: urllib.parse.ParseResult
+) -> None:
+    """Adjust relative File and Directory locations to the new place of value."""
+    if posixpath.dirname(old_base.geturl()) == posixpath.dirname(new_base.geturl()):
+        return
+    if isinstance(value, list):
+        for item in value:
+            relocate_files(item, old_base, new_base)
+    elif isinstance(value, dict):
+        if value.get("class") in ("File", "Directory"):
+            for key in ("location", "path"):
+                link = value.get(key)
+                if not isinstance(link, str) or link.startswith(("/", "_:", "$")):
+                    continue
+                if urllib.parse.urlparse(link).scheme != "":
+                    continue
+                url = utils.resolved_path(old_base, link)
+                if url[:2] == new_base[:2]:
+                    folder = posixpath.dirname(new_base.path)
+                    url = url._replace(
+                        scheme="",
+                        netloc="",
+                        path=posixpath.relpath(url.path, folder or "/"),
+                    )
+                value[key] = url.geturl()
+        for item in value.values():
+            relocate_files(item, old_base, new_base)
+
+
 def hoist_metadata(
     cwl: dict[str, Any], run: dict[str, Any], run_url: urllib.parse.ParseResult
 ) -> None:
-- 
2.43.0


From 13d4eea176838a3bfd4ef1f46b181b7b986fe31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:39 +0000
Subject: [PATCH 044/121] fix: pack() takes imports of steps, parameters and
 other parts at any place

---
 src/cwl_utils/pack.py      | 18 ++++++++++++++----
 src/cwl_utils/schemadef.py |  2 ++
 src/cwl_utils/utils.py     | 27 +++++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 5d54c2b..7b24f50 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -56,11 +56,11 @@ def pack_process(
     cwl_version: str,
     parent_user_defined_types: dict[str, Any] | None = None,
 ) -> dict[str, Any]:
+    cwl = resolve_imports(cwl, base_url)
     cwl = listify_everything(cwl)
     cwl = normalize_sources(cwl)
     cwl, user_defined_types = load_schemadefs(cwl, base_url, parent_user_defined_types)
     cwl = resolve_schemadefs(cwl, base_url, user_defined_types)
-    cwl = resolve_imports(cwl, base_url)
     cwl = resolve_steps(
         cwl,
         base_url,
@@ -172,6 +172,7 @@ def resolve_schemadefs(
 
 
 def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
+    """Load all $import and $include, except those of processes and user types."""
     if isinstance(cwl, dict):
         itr: Union["dict_items[Any, Any]", ItemsView[Any, Any]] = cwl.items()
     elif isinstance(cwl, list):
@@ -181,6 +182,9 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
 
     for k, v in itr:
         if isinstance(v, dict):
+            if v.get("class") == "SchemaDefRequirement" or k == "SchemaDefRequirement":
+                # load_schemadefs() will load it
+                continue
             if len(v) == 1:
                 _k = list(v.keys())[0]
                 if _k in ("$import", "$include"):
@@ -188,11 +192,17 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
                         # resolve_steps() will load it
                         cwl[k] = v[_k]
                         continue
-                    cwl[k], this_base_url = utils.load_linked_file(
+                    node, this_base_url = utils.load_linked_file(
                         base_url, v[_k], is_import=_k == "$import"
                     )
-                    cwl[k] = resolve_imports(cwl[k], this_base_url)
-                    relocate_files(cwl[k], this_base_url, base_url)
+                    if (
+                        isinstance(node, dict)
+                        and node.get("class") == "SchemaDefRequirement"
+                    ):
+                        continue
+                    node = utils.absolute_links(node, this_base_url)
+                    relocate_files(node, this_base_url, base_url)
+                    cwl[k] = resolve_imports(node, this_base_url)
                     continue
 
         cwl[k] = resolve_imports(cwl[k], base_url)
diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 2827331..8f5a886 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -34,6 +34,7 @@ def build_user_defined_type_dict(
             requirement, new_base_url = utils.load_linked_file(
                 base_url, entry["$import"], is_import=True
             )
+            requirement = utils.absolute_links(requirement, new_base_url)
             if requirement["class"] == "SchemaDefRequirement":
                 cwl["requirements"][index] = requirement
                 type_definition_list = requirement["types"]
@@ -83,6 +84,7 @@ def _build_user_defined_type_dict(
             type_definition_list, this_url = utils.load_linked_file(
                 base_url, schema["$import"], is_import=True
             )
+            type_definition_list = utils.absolute_links(type_definition_list, this_url)
             # This is always a list
             if isinstance(type_definition_list, dict):
                 type_definition_list = [type_definition_list]
diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 51adaa6..427f196 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -135,6 +135,33 @@ def load_linked_file(
     return _node, new_url
 
 
+def absolute_links(node: Any, base_url: urllib.parse.ParseResult) -> Any:
+    """Make the references of an imported node to files and types absolute."""
+
+    def _absolute_type(value: Any) -> Any:
+        if isinstance(value, list):
+            return [_absolute_type(v) for v in value]
+        if isinstance(value, str) and "#" in value:
+            return resolved_path(base_url, value).geturl()
+        return absolute_links(value, base_url)
+
+    if isinstance(node, list):
+        return [absolute_links(v, base_url) for v in node]
+    if not isinstance(node, dict):
+        return node
+    result = {}
+    for k, v in node.items():
+        if k in ("$import", "$include", "run") and isinstance(v, str):
+            result[k] = resolved_path(base_url, v).geturl()
+        elif k in ("type", "items"):
+            result[k] = _absolute_type(v)
+        elif k == "default":
+            result[k] = v
+        else:
+            result[k] = absolute_links(v, base_url)
+    return result
+
+
 def normalize_to_map(obj: list[Any] | dict[str, Any], key_field: str) -> dict[str, Any]:
     """From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py ."""
     if isinstance(obj, dict):
-- 
2.43.0


From 7f9adcc9fc279997d77304735487928a7fcaa1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 045/121] fix: pack() resolves the includes in user types, and
 locations in nested imports

---
 src/cwl_utils/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 7b24f50..64eda29 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -61,6 +61,7 @@ def pack_process(
     cwl = normalize_sources(cwl)
     cwl, user_defined_types = load_schemadefs(cwl, base_url, parent_user_defined_types)
     cwl = resolve_schemadefs(cwl, base_url, user_defined_types)
+    cwl = resolve_imports(cwl, base_url)
     cwl = resolve_steps(
         cwl,
         base_url,
@@ -201,8 +202,8 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
                     ):
                         continue
                     node = utils.absolute_links(node, this_base_url)
-                    relocate_files(node, this_base_url, base_url)
                     cwl[k] = resolve_imports(node, this_base_url)
+                    relocate_files(cwl[k], this_base_url, base_url)
                     continue
 
         cwl[k] = resolve_imports(cwl[k], base_url)
-- 
2.43.0


From d812e4d76c6193d7b33f9e983ef7e7c3e3f2b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 046/121] fix: cwl-graph-split rewrites each reference by its
 role, for every style of $graph

---
 src/cwl_utils/graph_split.py | 317 +++++++++++++++++++----------------
 1 file changed, 174 insertions(+), 143 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 8a1ef14..397f5f0 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -14,14 +14,12 @@ import logging
 import os
 import re
 import sys
-from collections.abc import MutableMapping
 from io import TextIOWrapper
 from pathlib import Path
 from typing import (
     IO,
     Any,
     Callable,
-    cast,
 )
 
 try:
@@ -31,9 +29,10 @@ except ImportError:
     stringify_dict = None
 from ruamel.yaml.main import YAML
 from ruamel.yaml.representer import RoundTripRepresenter
-from schema_salad.sourceline import SourceLine, add_lc_filename
+from schema_salad.sourceline import add_lc_filename
 
 from cwl_utils.loghandler import _logger as _cwlutilslogger
+from cwl_utils.utils import normalize_to_list
 
 _logger = logging.getLogger("cwl-graph-split")  # pylint: disable=invalid-name
 defaultStreamHandler = logging.StreamHandler()  # pylint: disable=invalid-name
@@ -102,7 +101,7 @@ def graph_split(
     sourceIO: IO[str],
     output_dir: Path,
     output_format: str,
-    mainfile: str,
+    mainfile: str | None,
     pretty: bool,
 ) -> None:
     """Loop over the provided packed CWL document and split it up."""
@@ -132,152 +131,184 @@ def graph_split(
 
     RoundTripRepresenter.add_representer(type(None), my_represent_none)
 
+    if mainfile is None:
+        mainfile = f"unpacked_{os.path.basename(sourceIO.name)}"
+    files = file_names(source["$graph"], mainfile)
+    types: dict[str, list[Any]] = {}
     for entry in source["$graph"]:
-        entry_id = entry.pop("id").lstrip("#")
+        entry_id = entry.pop("id").removeprefix("#")
         entry["cwlVersion"] = version
-        imports = rewrite(entry, entry_id, output_dir)
-        if imports:
-            for import_name in imports:
-                rewrite_types(entry, f"#{import_name}", False)
-        if entry_id == "main":
-            if mainfile is None:
-                entry_id = f"unpacked_{os.path.basename(sourceIO.name)}"
-            else:
-                entry_id = mainfile
-
-        output_file = output_dir / (re.sub(".cwl$", "", entry_id) + ".cwl")
+        for key in ("$namespaces", "$schemas"):
+            if key in source:
+                entry[key] = source[key]
+        rewriter = Rewriter(entry_id, files)
+        rewriter.process(entry, entry_id)
+        for type_file, definitions in rewriter.types.items():
+            known = types.setdefault(type_file, [])
+            known.extend(d for d in definitions if d not in known)
+
+        output_file = output_dir / files[entry_id]
         if output_format == "json":
             json_dump(entry, output_file)
         elif output_format == "yaml":
             with output_file.open("w", encoding="utf-8") as output_handle:
                 yaml_dump(entry, output_handle, pretty)
-
-
-def rewrite_id(entry: Any, this_id: str | None) -> MutableMapping[Any, Any] | str:
-    if isinstance(entry, MutableMapping):
-        if entry["id"].startswith(this_id):
-            assert isinstance(this_id, str)  # nosec B101
-            entry["id"] = cast(str, entry["id"])[len(this_id) + 1 :]
-        return entry
-    elif isinstance(entry, str):
-        if this_id and entry.startswith(this_id):
-            return entry[len(this_id) + 1 :]
-        return entry
-    raise Exception(f"{entry} is neither a dictionary nor string.")
-
-
-def rewrite(
-    document: Any, doc_id: str, output_dir: Path, pretty: bool = False
-) -> set[str]:
-    """Rewrite the given element from the CWL $graph."""
-    imports = set()
-    if isinstance(document, list) and not isinstance(document, str):
-        for entry in document:
-            imports.update(rewrite(entry, doc_id, output_dir, pretty))
-    elif isinstance(document, dict):
-        this_id = document["id"] if "id" in document else None
-        for key, value in document.items():
-            with SourceLine(document, key, Exception):
-                match key:
-                    case "run" if isinstance(value, str) and value[0] == "#":
-                        document[key] = f"{re.sub('.cwl$', '', value[1:])}.cwl"
-                    case "id" | "outputSource" if value.startswith("#" + doc_id):
-                        document[key] = value[len(doc_id) + 2 :]
-                    case "out" if isinstance(value, list):
-                        document[key][:] = [
-                            rewrite_id(entry, this_id) for entry in value
-                        ]
-                    case "source" | "scatter" | "items" | "format":
-                        if (
-                            isinstance(value, str)
-                            and value.startswith("#")
-                            and "/" in value
-                        ):
-                            referrant_file, sub = value[1:].split("/", 1)
-                            if referrant_file == doc_id:
-                                document[key] = sub
-                            else:
-                                document[key] = f"{referrant_file}#{sub}"
-                        elif isinstance(value, list):
-                            new_sources = []
-                            for entry in value:
-                                if entry.startswith("#" + doc_id):
-                                    new_sources.append(entry[len(doc_id) + 2 :])
-                                else:
-                                    new_sources.append(entry)
-                            document[key] = new_sources
-                    case "$import":
-                        rewrite_import(document)
-                    case "class" if value == "SchemaDefRequirement":
-                        return rewrite_schemadef(document, output_dir, pretty)
-                    case _:
-                        imports.update(rewrite(value, doc_id, output_dir, pretty))
-    return imports
-
-
-def rewrite_import(document: MutableMapping[str, Any]) -> None:
-    """Adjust the $import directive."""
-    external_file = document["$import"].split("/")[0].lstrip("#")
-    document["$import"] = external_file
-
-
-def rewrite_types(field: Any, entry_file: str, sameself: bool) -> None:
-    """Clean up the names of the types."""
-    if isinstance(field, list) and not isinstance(field, str):
-        for entry in field:
-            rewrite_types(entry, entry_file, sameself)
-        return
-    if isinstance(field, dict):
-        for key, value in field.items():
-            for name in ("type", "items"):
-                if key == name:
-                    if isinstance(value, str) and value.startswith(entry_file):
-                        if sameself:
-                            field[key] = value[len(entry_file) + 1 :]
-                        else:
-                            field[key] = "{d[0]}#{d[1]}".format(
-                                d=value[1:].split("/", 1)
-                            )
-            if isinstance(value, dict):
-                rewrite_types(value, entry_file, sameself)
-            if isinstance(value, list) and not isinstance(value, str):
-                for entry in value:
-                    rewrite_types(entry, entry_file, sameself)
-
-
-def rewrite_schemadef(
-    document: MutableMapping[str, Any], output_dir: Path, pretty: bool = False
-) -> set[str]:
-    """Dump the schemadefs to their own file."""
-    for entry in document["types"]:
-        if "$import" in entry:
-            rewrite_import(entry)
-        elif "name" in entry and "/" in entry["name"]:
-            entry_file, entry["name"] = entry["name"].lstrip("#").split("/")
-            for field in entry.get("fields", []):
-                field["name"] = field["name"].split("/")[2]
-                rewrite_types(field, entry_file, True)
-            with (output_dir / entry_file).open("a", encoding="utf-8") as entry_handle:
-                yaml_dump(entry, entry_handle, pretty)
-            entry["$import"] = entry_file
-            del entry["name"]
-            del entry["type"]
-            if "fields" in entry:
-                del entry["fields"]
-    seen_imports = set()
-
-    def seen_import(entry: MutableMapping[str, Any]) -> bool:
-        if "$import" in entry:
-            external_file = entry["$import"]
-            if external_file not in seen_imports:
-                seen_imports.add(external_file)
-                return True
-            return False
-        return True
-
-    types = document["types"]
-    document["types"][:] = [entry for entry in types if seen_import(entry)]
-    return seen_imports
+    for type_file, definitions in types.items():
+        with (output_dir / type_file).open("w", encoding="utf-8") as output_handle:
+            yaml_dump(definitions, output_handle, False)
+
+
+def file_names(graph: list[Any], mainfile: str) -> dict[str, str]:
+    """Choose a distinct file name for every process of the graph."""
+    names: dict[str, str] = {}
+    for main in (True, False):
+        for entry in graph:
+            entry_id = entry["id"].removeprefix("#")
+            if (entry_id == "main") is main:
+                name = mainfile if main else entry_id.replace("/", "_")
+                name = stem = re.sub(r"\.cwl$", "", name)
+                number = 1
+                while name in names.values():
+                    number += 1
+                    name = f"{stem}_{number}"
+                names[entry_id] = name
+    return {entry_id: name + ".cwl" for entry_id, name in names.items()}
+
+
+class Rewriter:
+    """Adjusts a process of a $graph to be in a file of its own."""
+
+    def __init__(self, doc_id: str, files: dict[str, str]) -> None:
+        """Remember the process' id, and the file name of each process."""
+        self.doc_id = doc_id
+        self.files = files
+        self.types: dict[str, list[Any]] = {}
+
+    def local(self, value: Any, scope: str) -> Any:
+        """Shorten a reference to something inside scope or this process."""
+        if isinstance(value, list):
+            return [self.local(entry, scope) for entry in value]
+        if isinstance(value, str):
+            if value.startswith(f"#{scope}/"):
+                return value[len(scope) + 2 :]
+            if value.startswith(f"#{self.doc_id}/"):
+                return "#" + value[len(self.doc_id) + 2 :]
+        return value
+
+    def identify(self, entry: Any, key: str, scope: str) -> str:
+        """Shorten the identifier of the entry and return its scope."""
+        if not isinstance(entry.get(key), str):
+            return scope
+        name = entry[key] = self.local(entry[key], scope)
+        if name.startswith("#"):
+            return f"{self.doc_id}/{name[1:]}"
+        return f"{scope}/{name}"
+
+    def process(self, process: Any, scope: str) -> None:
+        """Rewrite the process, whose own identifier is its scope."""
+        for port in ("inputs", "outputs"):
+            if port in process:
+                process[port] = normalize_to_list(process[port], "id", "type")
+                for param in process[port]:
+                    param_scope = self.identify(param, "id", scope)
+                    if "type" in param:
+                        param["type"] = self.type(param["type"], param_scope)
+                    if "outputSource" in param:
+                        param["outputSource"] = self.local(param["outputSource"], scope)
+        self.requirements(process, scope)
+        if process.get("class") == "Workflow":
+            process["steps"] = normalize_to_list(process["steps"], "id", None)
+            for step in process["steps"]:
+                self.step(step, scope)
+
+    def step(self, step: Any, scope: str) -> None:
+        """Rewrite the step of the process with the given scope."""
+        step_scope = self.identify(step, "id", scope)
+        step["in"] = normalize_to_list(step.get("in", []), "id", "source")
+        for param in step["in"]:
+            self.identify(param, "id", step_scope)
+            if "source" in param:
+                param["source"] = self.local(param["source"], scope)
+        for index, output in enumerate(step["out"]):
+            if isinstance(output, str):
+                step["out"][index] = self.local(output, step_scope)
+            else:
+                self.identify(output, "id", step_scope)
+        if "scatter" in step:
+            step["scatter"] = self.local(step["scatter"], step_scope)
+        self.requirements(step, scope)
+        run = step["run"]
+        if isinstance(run, str):
+            step["run"] = self.files.get(run[1:], run) if run[:1] == "#" else run
+        elif "id" in run:
+            self.process(run, self.identify(run, "id", step_scope))
+        else:
+            self.process(run, f"{step_scope}/run")
+
+    def requirements(self, holder: Any, scope: str) -> None:
+        """Rewrite the type definitions of a process or step."""
+        requirements = holder.get("requirements", [])
+        if not isinstance(requirements, list):
+            for key, value in requirements.items():
+                if key == "SchemaDefRequirement":
+                    self.schemadef(value, scope)
+        for entry in requirements:
+            if isinstance(entry, dict) and entry.get("class") == "SchemaDefRequirement":
+                self.schemadef(entry, scope)
+
+    def schemadef(self, requirement: Any, scope: str) -> None:
+        """Rewrite type definitions, those of other files go to such files."""
+        kept: list[Any] = []
+        for entry in requirement["types"]:
+            name = entry.get("name", "").removeprefix("#")
+            if "$import" in entry and entry["$import"].startswith("#"):
+                entry = {"$import": self.type_file(entry["$import"])[0]}
+            elif "/" in name and not name.startswith(f"{self.doc_id}/"):
+                type_file, _, path = self.type_file(name)
+                entry["name"] = "#" + name
+                other = Rewriter(path, self.files)
+                other.type(entry, path)
+                self.types.setdefault(type_file, []).append(entry)
+                entry = {"$import": type_file}
+            else:
+                entry = self.type(entry, scope)
+            if entry not in kept:
+                kept.append(entry)
+        requirement["types"] = kept
+
+    def type_file(self, name: str) -> tuple[str, str, str]:
+        """Tell the file a type belongs to from its name."""
+        path, _, rest = name.removeprefix("#").rpartition("/")
+        return (path or rest).replace("/", "_"), rest, path
+
+    def type(self, value: Any, scope: str) -> Any:
+        """Rewrite a type."""
+        if isinstance(value, list):
+            return [self.type(entry, scope) for entry in value]
+        if isinstance(value, str):
+            if value.startswith(f"#{self.doc_id}/"):
+                return "#" + value[len(self.doc_id) + 2 :]
+            if value.startswith("#") and "/" in value:
+                return "#".join(self.type_file(value)[:2])
+            return value
+        if not isinstance(value, dict):
+            return value
+        scope = self.identify(value, "name", scope)
+        if "symbols" in value:
+            value["symbols"] = [
+                symbol.rpartition("/")[2] if symbol.startswith("#") else symbol
+                for symbol in self.local(value["symbols"], scope)
+            ]
+        if "fields" in value:
+            value["fields"] = normalize_to_list(value["fields"], "name", "type")
+            for field in value["fields"]:
+                field["type"] = self.type(
+                    field["type"], self.identify(field, "name", scope)
+                )
+        for key in ("items", "type"):
+            if key in value:
+                value[key] = self.type(value[key], scope)
+        return value
 
 
 def json_dump(entry: Any, output_file: Path) -> None:
-- 
2.43.0


From 8acf6669fce0c87b5d24c6270aa21bea9882e0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:57 +0000
Subject: [PATCH 047/121] fix: cwl-graph-split keeps dates as they are written

---
 src/cwl_utils/graph_split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 397f5f0..7f19938 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -29,7 +29,9 @@ except ImportError:
     stringify_dict = None
 from ruamel.yaml.main import YAML
 from ruamel.yaml.representer import RoundTripRepresenter
+from schema_salad.ref_resolver import file_uri
 from schema_salad.sourceline import add_lc_filename
+from schema_salad.utils import yaml_no_ts
 
 from cwl_utils.loghandler import _logger as _cwlutilslogger
 from cwl_utils.utils import normalize_to_list
@@ -105,9 +107,7 @@ def graph_split(
     pretty: bool,
 ) -> None:
     """Loop over the provided packed CWL document and split it up."""
-    yaml = YAML(typ="rt")
-    yaml.preserve_quotes = True
-    source = yaml.load(sourceIO)
+    source = yaml_no_ts().load(sourceIO)
     add_lc_filename(source, sourceIO.name)
 
     if "$graph" not in source:
-- 
2.43.0


From 11c4ccef3e2aae3bc4f98ce251234c2492498193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 048/121] fix: cwl-graph-split keeps the meaning of relative
 locations and $schemas

---
 src/cwl_utils/graph_split.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 7f19938..af81c37 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -21,6 +21,7 @@ from typing import (
     Any,
     Callable,
 )
+from urllib.parse import urljoin, urlparse
 
 try:
     stringify_dict: Callable[[dict[str, Any]], str] | None
@@ -34,7 +35,8 @@ from schema_salad.sourceline import add_lc_filename
 from schema_salad.utils import yaml_no_ts
 
 from cwl_utils.loghandler import _logger as _cwlutilslogger
-from cwl_utils.utils import normalize_to_list
+from cwl_utils.pack import relocate_files
+from cwl_utils.utils import is_uri, normalize_to_list
 
 _logger = logging.getLogger("cwl-graph-split")  # pylint: disable=invalid-name
 defaultStreamHandler = logging.StreamHandler()  # pylint: disable=invalid-name
@@ -135,6 +137,12 @@ def graph_split(
         mainfile = f"unpacked_{os.path.basename(sourceIO.name)}"
     files = file_names(source["$graph"], mainfile)
     types: dict[str, list[Any]] = {}
+    source_uri = sourceIO.name
+    if not is_uri(source_uri):
+        source_uri = file_uri(os.path.abspath(source_uri))
+    if "$schemas" in source:
+        source["$schemas"] = [urljoin(source_uri, s) for s in source["$schemas"]]
+    new_uri = file_uri(os.path.abspath(output_dir / "main.cwl"))
     for entry in source["$graph"]:
         entry_id = entry.pop("id").removeprefix("#")
         entry["cwlVersion"] = version
@@ -143,6 +151,7 @@ def graph_split(
                 entry[key] = source[key]
         rewriter = Rewriter(entry_id, files)
         rewriter.process(entry, entry_id)
+        relocate_files(entry, urlparse(source_uri), urlparse(new_uri))
         for type_file, definitions in rewriter.types.items():
             known = types.setdefault(type_file, [])
             known.extend(d for d in definitions if d not in known)
-- 
2.43.0


From 416ccd4cd1c48912f16c96dfe703092cb3219d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:12 +0000
Subject: [PATCH 049/121] fix: CWL written as JSON has no escapes that YAML
 reads differently

---
 src/cwl_utils/graph_split.py | 2 +-
 src/cwl_utils/pack_cli.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index af81c37..3d9b8e2 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -323,7 +323,7 @@ class Rewriter:
 def json_dump(entry: Any, output_file: Path) -> None:
     """Output object as JSON."""
     with output_file.open("w", encoding="utf-8") as result_handle:
-        json.dump(entry, result_handle, indent=4)
+        json.dump(entry, result_handle, indent=4, ensure_ascii=False)
 
 
 def yaml_dump(
diff --git a/src/cwl_utils/pack_cli.py b/src/cwl_utils/pack_cli.py
index c80cd88..0047fc9 100644
--- a/src/cwl_utils/pack_cli.py
+++ b/src/cwl_utils/pack_cli.py
@@ -35,7 +35,7 @@ def arg_parser() -> argparse.ArgumentParser:
 def run(args: argparse.Namespace) -> int:
     """Pack the input CWL document and write the result."""
     packed = pack(args.cwlfile)
-    serialized = json.dumps(packed, indent=args.indent)
+    serialized = json.dumps(packed, indent=args.indent, ensure_ascii=False)
     if args.outfile is None:
         sys.stdout.write(serialized)
         sys.stdout.write("\n")
-- 
2.43.0


From 6420c5433ebfa36d398768b1b886905acc2f1e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 050/121] fix: escaped surrogates in CWL documents do not stop
 packing and splitting

---
 src/cwl_utils/graph_split.py |  5 ++---
 src/cwl_utils/pack_cli.py    |  4 ++--
 src/cwl_utils/utils.py       | 22 ++++++++++++++++++++++
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 3d9b8e2..4b714fd 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -9,7 +9,6 @@ Only tested with a single v1.0 workflow.
 """
 
 import argparse
-import json
 import logging
 import os
 import re
@@ -36,7 +35,7 @@ from schema_salad.utils import yaml_no_ts
 
 from cwl_utils.loghandler import _logger as _cwlutilslogger
 from cwl_utils.pack import relocate_files
-from cwl_utils.utils import is_uri, normalize_to_list
+from cwl_utils.utils import is_uri, json_text, normalize_to_list
 
 _logger = logging.getLogger("cwl-graph-split")  # pylint: disable=invalid-name
 defaultStreamHandler = logging.StreamHandler()  # pylint: disable=invalid-name
@@ -323,7 +322,7 @@ class Rewriter:
 def json_dump(entry: Any, output_file: Path) -> None:
     """Output object as JSON."""
     with output_file.open("w", encoding="utf-8") as result_handle:
-        json.dump(entry, result_handle, indent=4, ensure_ascii=False)
+        result_handle.write(json_text(entry, indent=4))
 
 
 def yaml_dump(
diff --git a/src/cwl_utils/pack_cli.py b/src/cwl_utils/pack_cli.py
index 0047fc9..2d6365f 100644
--- a/src/cwl_utils/pack_cli.py
+++ b/src/cwl_utils/pack_cli.py
@@ -3,10 +3,10 @@
 """Pack a CWL document into a single JSON document."""
 
 import argparse
-import json
 import sys
 
 from cwl_utils.pack import pack
+from cwl_utils.utils import json_text
 
 
 def arg_parser() -> argparse.ArgumentParser:
@@ -35,7 +35,7 @@ def arg_parser() -> argparse.ArgumentParser:
 def run(args: argparse.Namespace) -> int:
     """Pack the input CWL document and write the result."""
     packed = pack(args.cwlfile)
-    serialized = json.dumps(packed, indent=args.indent, ensure_ascii=False)
+    serialized = json_text(packed, indent=args.indent)
     if args.outfile is None:
         sys.stdout.write(serialized)
         sys.stdout.write("\n")
diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 427f196..f219787 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -1,7 +1,9 @@
 # SPDX-License-Identifier: Apache-2.0
 """Miscellaneous utility functions."""
 
+import json
 import pathlib
+import re
 import subprocess  # nosec
 import sys
 import urllib.error
@@ -472,6 +474,26 @@ def sanitise_schema_field(
     return schema_field_item
 
 
+def json_text(value: Any, indent: int | None = None) -> str:
+    """
+    Write a value as JSON that YAML readers understand the same.
+
+    Characters are not escaped, as YAML reads the escaped surrogates that JSON has
+    for some of them as two characters.
+    """
+
+    def combine(match: re.Match[str]) -> str:
+        if len(match.group()) == 1:
+            return f"\\u{ord(match.group()):04x}"
+        return match.group().encode("utf-16", "surrogatepass").decode("utf-16")
+
+    return re.sub(
+        "[\ud800-\udbff][\udc00-\udfff]|[\ud800-\udfff]",
+        combine,
+        json.dumps(value, indent=indent, ensure_ascii=False),
+    )
+
+
 def is_uri(uri: str) -> bool:
     """
     Given a URI return True if it is a URI.
-- 
2.43.0


From 53a95674cf870a10b5d5340514622f52ccf12b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 051/121] fix: cwl-docker-extract adds ':latest' at steps and
 for registries with a port

---
 src/cwl_utils/docker_extract.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/docker_extract.py b/src/cwl_utils/docker_extract.py
index f67163d..8547f22 100755
--- a/src/cwl_utils/docker_extract.py
+++ b/src/cwl_utils/docker_extract.py
@@ -93,16 +93,19 @@ def run(args: argparse.Namespace) -> list[cwl.DockerRequirement]:
 
 
 def extract_docker_requirements(
-    process: cwl.Process,
+    process: cwl.Process | cwl.WorkflowStep,
 ) -> Iterator[cwl.DockerRequirement]:
     """Yield an iterator of the docker reqs, normalizing the pull request."""
     for req in extract_docker_reqs(process):
-        if isinstance(req.dockerPull, str) and ":" not in req.dockerPull:
+        # a colon before the last slash belongs to the port of the registry
+        if isinstance(req.dockerPull, str) and ":" not in req.dockerPull.split("/")[-1]:
             req.dockerPull += ":latest"
         yield req
 
 
-def extract_docker_reqs(process: cwl.Process) -> Iterator[cwl.DockerRequirement]:
+def extract_docker_reqs(
+    process: cwl.Process | cwl.WorkflowStep,
+) -> Iterator[cwl.DockerRequirement]:
     """For the given process, extract the DockerRequirement(s)."""
     if process.requirements:
         for req in process.requirements:
@@ -131,7 +134,7 @@ def get_process_from_step(step: cwl.WorkflowStep) -> cwl.Process:
 def traverse_workflow(workflow: cwl.Workflow) -> Iterator[cwl.DockerRequirement]:
     """Iterate over the steps of this workflow, yielding the docker reqs."""
     for step in workflow.steps:
-        yield from extract_docker_reqs(step)
+        yield from extract_docker_requirements(step)
         yield from traverse(get_process_from_step(step))
 
 
-- 
2.43.0


From 6d18daa3e3fe76335416b99e1ea259ea6fdefabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 052/121] fix: cwl-docker-extract --force-download works for
 the first download

---
 src/cwl_utils/image_puller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/image_puller.py b/src/cwl_utils/image_puller.py
index 5604002..9f03a5c 100644
--- a/src/cwl_utils/image_puller.py
+++ b/src/cwl_utils/image_puller.py
@@ -70,7 +70,7 @@ class DockerImagePuller(ImagePuller):
         if self.save_directory:
             dest = Path(self.save_directory, self.get_image_name())
             if self.save_directory and self.force_pull:
-                dest.unlink()
+                dest.unlink(missing_ok=True)
             cmd_save = [
                 self.cmd,
                 "save",
-- 
2.43.0


From 6befb0d04ad3de3137e773f3ca12cb4a45a3a0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:14 +0000
Subject: [PATCH 053/121] fix: cwl-docker-extract saves each image once

---
 src/cwl_utils/docker_extract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwl_utils/docker_extract.py b/src/cwl_utils/docker_extract.py
index 8547f22..6281224 100755
--- a/src/cwl_utils/docker_extract.py
+++ b/src/cwl_utils/docker_extract.py
@@ -55,6 +55,7 @@ def run(args: argparse.Namespace) -> list[cwl.DockerRequirement]:
 
     top = cwl.load_document_by_uri(args.input)
     reqs: list[cwl.DockerRequirement] = []
+    saved: set[str] = set()
 
     for req in traverse(top):
         reqs.append(req)
@@ -66,6 +67,9 @@ def run(args: argparse.Namespace) -> list[cwl.DockerRequirement]:
             yaml = ruamel.yaml.YAML()
             yaml.dump(req.save(), sys.stderr)
             continue
+        if req.dockerPull in saved:
+            continue
+        saved.add(req.dockerPull)
         if args.singularity:
             image_puller: ImagePuller = SingularityImagePuller(
                 req.dockerPull,
-- 
2.43.0


From c3134b70dea63845f612c55404b5cfe5dc1c3519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:40 +0000
Subject: [PATCH 054/121] fix: the images and packages named in hints of steps
 are extracted

---
 src/cwl_utils/cite_extract.py   |  7 +++++--
 src/cwl_utils/docker_extract.py |  5 ++++-
 src/cwl_utils/utils.py          | 21 +++++++++++++++++++++
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/cite_extract.py b/src/cwl_utils/cite_extract.py
index d35081d..1a5f8df 100755
--- a/src/cwl_utils/cite_extract.py
+++ b/src/cwl_utils/cite_extract.py
@@ -6,6 +6,7 @@ from collections.abc import Iterator
 from typing import cast
 
 import cwl_utils.parser as cwl
+from cwl_utils.utils import typed_hints
 
 
 def arg_parser() -> argparse.ArgumentParser:
@@ -33,14 +34,16 @@ def main() -> int:
 
 
 def extract_software_reqs(
-    process: cwl.Process,
+    process: cwl.Process | cwl.WorkflowStep,
 ) -> Iterator[cwl.SoftwareRequirement]:
     """Return an iterator over any SoftwareRequirements found in the given process."""
     if process.requirements:
         for req in process.requirements:
             if isinstance(req, cwl.SoftwareRequirementTypes):
                 yield req
-    if process.hints:
+    if isinstance(process, cwl.WorkflowStep):
+        yield from typed_hints(process, "SoftwareRequirement")
+    elif process.hints:
         for req in process.hints:
             if isinstance(req, cwl.SoftwareRequirementTypes):
                 yield req
diff --git a/src/cwl_utils/docker_extract.py b/src/cwl_utils/docker_extract.py
index 6281224..34a37c2 100755
--- a/src/cwl_utils/docker_extract.py
+++ b/src/cwl_utils/docker_extract.py
@@ -14,6 +14,7 @@ from cwl_utils.image_puller import (
     ImagePuller,
     SingularityImagePuller,
 )
+from cwl_utils.utils import typed_hints
 
 
 def arg_parser() -> argparse.ArgumentParser:
@@ -115,7 +116,9 @@ def extract_docker_reqs(
         for req in process.requirements:
             if isinstance(req, cwl.DockerRequirementTypes):
                 yield req
-    if process.hints:
+    if isinstance(process, cwl.WorkflowStep):
+        yield from typed_hints(process, "DockerRequirement")
+    elif process.hints:
         for req in process.hints:
             if isinstance(req, cwl.DockerRequirementTypes):
                 yield req
diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index f219787..b278bc8 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -20,6 +20,7 @@ from ruamel.yaml.constructor import SafeConstructor
 from ruamel.yaml.main import YAML
 from ruamel.yaml.parser import ParserError
 from ruamel.yaml.scanner import ScannerError
+from schema_salad.exceptions import ValidationException
 
 from cwl_utils.errors import MissingKeyField
 from cwl_utils.loghandler import _logger
@@ -474,6 +475,26 @@ def sanitise_schema_field(
     return schema_field_item
 
 
+def typed_hints(
+    step: cwl_v1_0.WorkflowStep | cwl_v1_1.WorkflowStep | cwl_v1_2.WorkflowStep,
+    name: str,
+) -> list[Any]:
+    """Load the hints of the given class of a step, which the parser leaves as they are."""
+    typed = getattr(sys.modules[type(step).__module__], name)
+    hints = []
+    for hint in step.hints or []:
+        if isinstance(hint, MutableMapping) and hint.get("class") == name:
+            try:
+                hint = typed.fromDoc(
+                    hint, step.loadingOptions.fileuri or "", step.loadingOptions
+                )
+            except ValidationException:
+                _logger.warning("Ignoring the invalid hint %s of %s", name, step.id)
+        if isinstance(hint, typed):
+            hints.append(hint)
+    return hints
+
+
 def json_text(value: Any, indent: int | None = None) -> str:
     """
     Write a value as JSON that YAML readers understand the same.
-- 
2.43.0


From d572ee671a616d1d15f890eb6a87142965d2b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 055/121] fix: check_format() checks every file of a list

---
 src/cwl_utils/file_formats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/file_formats.py b/src/cwl_utils/file_formats.py
index 8c1b51f..5f357fe 100644
--- a/src/cwl_utils/file_formats.py
+++ b/src/cwl_utils/file_formats.py
@@ -64,7 +64,8 @@ def check_format(
             if afile["format"] == inpf or formatSubclassOf(
                 afile["format"], inpf, ontology, set()
             ):
-                return
-        raise ValidationException(
-            f"File has an incompatible format: {json_dumps(afile, indent=4)}"
-        )
+                break
+        else:
+            raise ValidationException(
+                f"File has an incompatible format: {json_dumps(afile, indent=4)}"
+            )
-- 
2.43.0


From fd9593d6161c130f6c0c001e2293a098a81028dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:30 +0000
Subject: [PATCH 056/121] fix: reading the first 64 KiB of a file may cut a
 character in two

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 8 ++++++--
 src/cwl_utils/parser/cwl_v1_1_utils.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index d05f8ce..0714349 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -1,4 +1,5 @@
 # SPDX-License-Identifier: Apache-2.0
+import codecs
 import hashlib
 import logging
 from collections import namedtuple
@@ -182,9 +183,12 @@ def content_limit_respected_read(f: IO[bytes]) -> str:
     """
     Read file content up to 64 kB as an utf-8 encoded string.
 
-    Truncate content for larger files.
+    Truncate content for larger files, leaving out a character that is cut in two.
     """
-    return content_limit_respected_read_bytes(f).decode("utf-8")
+    contents = content_limit_respected_read_bytes(f)
+    return codecs.getincrementaldecoder("utf-8")().decode(
+        contents, final=len(contents) < CONTENT_LIMIT
+    )
 
 
 def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index b1cf898..44b45f6 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -1,4 +1,5 @@
 # SPDX-License-Identifier: Apache-2.0
+import codecs
 import hashlib
 import logging
 from collections import namedtuple
@@ -255,9 +256,12 @@ def content_limit_respected_read(f: IO[bytes]) -> str:
     """
     Read file content up to 64 kB as an utf-8 encoded string.
 
-    Truncate content for larger files.
+    Truncate content for larger files, leaving out a character that is cut in two.
     """
-    return content_limit_respected_read_bytes(f).decode("utf-8")
+    contents = content_limit_respected_read_bytes(f)
+    return codecs.getincrementaldecoder("utf-8")().decode(
+        contents, final=len(contents) < CONTENT_LIMIT
+    )
 
 
 def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
-- 
2.43.0


From ff35f173c45bb711a493da019b707172f43ba881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 057/121] fix: the stdin shorthand works for input names such
 as 'my-file' and 'in.txt'

---
 src/cwl_utils/parser/cwl_v1_1_utils.py | 7 +++++--
 src/cwl_utils/parser/cwl_v1_2_utils.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 44b45f6..3a5682c 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -2,6 +2,7 @@
 import codecs
 import hashlib
 import logging
+import re
 from collections import namedtuple
 from collections.abc import MutableMapping, MutableSequence
 from io import StringIO
@@ -300,9 +301,11 @@ def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
                     "Not allowed to specify stdin path when using stdin type shortcut."
                 )
             else:
+                name = cast(str, inp.id).rpartition("#")[2].split("/")[-1]
                 clt.stdin = (
-                    "$(inputs.%s.path)"
-                    % cast(str, inp.id).rpartition("#")[2].split("/")[-1]
+                    f"$(inputs.{name}.path)"
+                    if re.fullmatch(r"\w+", name)
+                    else "$(inputs['%s'].path)" % name.replace("'", r"\'")
                 )
                 inp.type_ = "File"
 
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 625f83e..42f2183 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -1,6 +1,7 @@
 # SPDX-License-Identifier: Apache-2.0
 import hashlib
 import logging
+import re
 from collections import namedtuple
 from collections.abc import MutableMapping, MutableSequence
 from io import StringIO
@@ -335,9 +336,11 @@ def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
                     "Not allowed to specify stdin path when using stdin type shortcut."
                 )
             else:
+                name = cast(str, inp.id).rpartition("#")[2].split("/")[-1]
                 clt.stdin = (
-                    "$(inputs.%s.path)"
-                    % cast(str, inp.id).rpartition("#")[2].split("/")[-1]
+                    f"$(inputs.{name}.path)"
+                    if re.fullmatch(r"\w+", name)
+                    else "$(inputs['%s'].path)" % name.replace("'", r"\'")
                 )
                 inp.type_ = "File"
 
-- 
2.43.0


From 82c752030f88e83b1d0697f81b63a67fda42faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:29 +0000
Subject: [PATCH 058/121] fix: job files with a '+' in their path are found

---
 src/cwl_utils/parser/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index c2f5dc4..ad6db2d 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -5,7 +5,7 @@ import logging
 from collections.abc import MutableSequence
 from pathlib import Path
 from typing import Any, cast, Literal
-from urllib.parse import unquote_plus, urlparse
+from urllib.parse import unquote, urlparse
 
 from schema_salad.exceptions import ValidationException
 from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema
@@ -163,7 +163,7 @@ def load_inputfile_by_uri(
     if isinstance(path, str):
         uri = urlparse(path)
         if not uri.scheme or uri.scheme == "file":
-            real_path = Path(unquote_plus(uri.path)).resolve().as_uri()
+            real_path = Path(unquote(uri.path)).resolve().as_uri()
         else:
             real_path = path
     else:
-- 
2.43.0


From cf033d221ad421ba7260685eb7e4ce6465599714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:02 +0000
Subject: [PATCH 059/121] fix: imports in job files are relative to the job
 file when loading options are given

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 6 ++++++
 src/cwl_utils/parser/cwl_v1_1_utils.py | 6 ++++++
 src/cwl_utils/parser/cwl_v1_2_utils.py | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 0714349..0a760cb 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -248,6 +248,9 @@ def load_inputfile_by_string(
 
     if loadingOptions is None:
         loadingOptions = LoadingOptions(fileuri=uri)
+    else:
+        # imports and includes are relative to the input file
+        loadingOptions = LoadingOptions(copyfrom=loadingOptions, fileuri=uri)
 
     result, metadata = _inputfile_load(
         result,
@@ -267,6 +270,9 @@ def load_inputfile_by_yaml(
 
     if loadingOptions is None:
         loadingOptions = LoadingOptions(fileuri=uri)
+    else:
+        # imports and includes are relative to the input file
+        loadingOptions = LoadingOptions(copyfrom=loadingOptions, fileuri=uri)
 
     result, metadata = _inputfile_load(
         yaml,
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 3a5682c..4f0bbf2 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -340,6 +340,9 @@ def load_inputfile_by_string(
 
     if loadingOptions is None:
         loadingOptions = LoadingOptions(fileuri=uri)
+    else:
+        # imports and includes are relative to the input file
+        loadingOptions = LoadingOptions(copyfrom=loadingOptions, fileuri=uri)
 
     result, metadata = _inputfile_load(
         result,
@@ -359,6 +362,9 @@ def load_inputfile_by_yaml(
 
     if loadingOptions is None:
         loadingOptions = LoadingOptions(fileuri=uri)
+    else:
+        # imports and includes are relative to the input file
+        loadingOptions = LoadingOptions(copyfrom=loadingOptions, fileuri=uri)
 
     result, metadata = _inputfile_load(
         yaml,
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 42f2183..b870d75 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -375,6 +375,9 @@ def load_inputfile_by_string(
 
     if loadingOptions is None:
         loadingOptions = LoadingOptions(fileuri=uri)
+    else:
+        # imports and includes are relative to the input file
+        loadingOptions = LoadingOptions(copyfrom=loadingOptions, fileuri=uri)
 
     result, metadata = _inputfile_load(
         result,
@@ -394,6 +397,9 @@ def load_inputfile_by_yaml(
 
     if loadingOptions is None:
         loadingOptions = LoadingOptions(fileuri=uri)
+    else:
+        # imports and includes are relative to the input file
+        loadingOptions = LoadingOptions(copyfrom=loadingOptions, fileuri=uri)
 
     result, metadata = _inputfile_load(
         yaml,
-- 
2.43.0


From abfe8f2c0e994cb1c99d1a11b5296e0f2e937f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:46 +0000
Subject: [PATCH 060/121] fix: cwl-inputs-schema-gen takes relative paths and
 percent-encoded file URIs

---
 src/cwl_utils/inputs_schema_gen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index a3592a5..3dffedb 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -14,7 +14,7 @@ from copy import deepcopy
 from importlib.resources import files
 from pathlib import Path
 from typing import Any, TypeGuard
-from urllib.parse import urlparse
+from urllib.parse import unquote, urlparse
 
 import requests
 
@@ -576,9 +576,9 @@ def get_cwl_url(url: str) -> str:
         if not Path(url).exists():
             logging.error("The CWL URL is invalid.")
             raise FileNotFoundError
-        return Path(url).as_uri()
+        return Path(url).absolute().as_uri()
     elif is_local_uri(url):
-        if not Path(urlparse(url).path).exists():
+        if not Path(unquote(urlparse(url).path)).exists():
             logging.error("The CWL URL is invalid.")
             raise FileNotFoundError
         return url
-- 
2.43.0


From 0a8c019fa29638eb0f3607d286b1a7114f662410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:54 +0000
Subject: [PATCH 061/121] fix: documentation in several lines gives a valid
 JSON schema

---
 src/cwl_utils/inputs_schema_gen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index 3dffedb..d3563e8 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -253,6 +253,8 @@ def generate_json_schema_property_from_input_parameter(
     # Get the input name and documentation for description
     input_name = get_value_from_uri(str(input_parameter.id))
     doc = input_parameter.doc
+    if isinstance(doc, list):
+        doc = "\n".join(doc)
     required = get_is_required_from_input_parameter(input_parameter)
 
     return JSONSchemaProperty(
-- 
2.43.0


From b950c1886d49b18e690980fcf00ba2ef66cd7907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:02 +0000
Subject: [PATCH 062/121] fix: the JSON schema of a union accepts values that
 match several of its types

---
 src/cwl_utils/inputs_schema_gen.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index d3563e8..5186e7f 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -101,7 +101,7 @@ class JSONSchemaProperty:
 
         # type_ is still a list therefore we offer multiple input types for this parameter
         if isinstance(self.type_, list):
-            # We use the oneOf keyword to specify multiple types
+            # We use the anyOf keyword, as a value may match several of them to specify multiple types
             type_dict = self.generate_type_dict_from_type_list(self.type_)
         # type_ is a single type
         else:
@@ -117,7 +117,7 @@ class JSONSchemaProperty:
         Generate the type dict for a property from a CWL input parameter type.
 
         We call this function for each type in the :py:attr:`type_` list
-        In the case there are multiple types, each dict is added to the oneOf list
+        In the case there are multiple types, each dict is added to the anyOf list
         """
         # Primitive types should have a 1-1 mapping
         # Between an CWL Input Parameter type and a JSON schema type
@@ -194,7 +194,7 @@ class JSONSchemaProperty:
             case list():
                 # Nested schema
                 return {
-                    "oneOf": list(
+                    "anyOf": list(
                         map(
                             self.generate_type_dict_from_type,
                             type_item,
@@ -207,9 +207,9 @@ class JSONSchemaProperty:
     def generate_type_dict_from_type_list(
         self, type_: list[InputType]
     ) -> dict[str, Any]:
-        """Given a list of types, generate a JSON schema property dict wrapped in oneOf list."""
+        """Given a list of types, generate a JSON schema property dict wrapped in anyOf list."""
         return {
-            "oneOf": list(
+            "anyOf": list(
                 map(
                     self.generate_type_dict_from_type,
                     type_,
@@ -441,7 +441,7 @@ def cwl_to_jsonschema(cwl_obj: Workflow | CommandLineTool) -> Any:
             "type": "object",
             "properties": {
                 prop.name: (
-                    {"oneOf": [{"type": "null"}, prop.type_dict]}
+                    {"anyOf": [{"type": "null"}, prop.type_dict]}
                     if prop.required is False
                     else prop.type_dict
                 )
-- 
2.43.0


From a7eb007dc0f4fddbfe080ac4d8c6fdeac02f3c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:10 +0000
Subject: [PATCH 063/121] fix: the JSON schema of long takes integers only

---
 src/cwl_utils/inputs_schema_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index 5186e7f..7fd7621 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -56,7 +56,7 @@ PRIMITIVE_TYPES_MAPPING = {
     "string": "string",
     "int": "integer",
     "float": "number",
-    "long": "number",
+    "long": "integer",
     "double": "number",
     "null": "null",
 }
-- 
2.43.0


From 0f163ffe5c3dd8b350fdb208538586d8bfb89c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:18 +0000
Subject: [PATCH 064/121] fix: the JSON schema of an inline record requires its
 mandatory fields

---
 src/cwl_utils/inputs_schema_gen.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index 7fd7621..b700a7b 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -67,6 +67,11 @@ InputType = (
 )
 
 
+def is_nullable(type_: Any) -> bool:
+    """Test if null is a value of the type."""
+    return bool(type_ == "null" or (isinstance(type_, list) and "null" in type_))
+
+
 # Don't need type checking at runtime
 
 
@@ -176,6 +181,11 @@ class JSONSchemaProperty:
                                 ): self.generate_type_dict_from_type(prop.type_)
                                 for prop in fields
                             },
+                            "required": [
+                                get_value_from_uri(prop.name)
+                                for prop in fields
+                                if not is_nullable(prop.type_)
+                            ],
                         }
                     case _:
                         _cwlutilslogger.error(
-- 
2.43.0


From 97f464a2916f3659f7d386b8a603338713434ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:27 +0000
Subject: [PATCH 065/121] fix: optional fields and inputs may be null in the
 JSON schema, also those of type null only

---
 src/cwl_utils/inputs_schema_gen.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index b700a7b..20b275c 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -96,8 +96,9 @@ class JSONSchemaProperty:
     def generate_type_dict(self) -> dict[str, Any]:
         """Generate the type dict for a property from a CWL input parameter type."""
         # If the type is a list and contains null, then the property is not required
-        if isinstance(self.type_, list) and "null" in self.type_:
+        if is_nullable(self.type_):
             self.required = False
+        if isinstance(self.type_, list) and any(item != "null" for item in self.type_):
             self.type_ = list(filter(lambda type_item: type_item != "null", self.type_))
 
             # Check if we're down to one item, we can then squeeze
@@ -240,7 +241,7 @@ def get_is_required_from_input_parameter(
         return False
     if input_parameter.default is not None:
         return False
-    if isinstance(input_parameter.type_, list) and "null" in input_parameter.type_:
+    if is_nullable(input_parameter.type_):
         return False
     if isinstance(input_parameter.type_, InputRecordSchemaTypes):
         if input_parameter.type_ is not None:
@@ -308,16 +309,8 @@ def generate_definition_from_schema(schema: InputRecordSchema) -> dict[str, Any]
         if isinstance(prop_obj, str):
             raise TypeError("Property Object should be a dictionary")
 
-        if isinstance(prop_obj.get("type", []), list):
-            if "null" in prop_obj.get("type", []):
-                required = False
-            prop_obj["type"] = list(
-                filter(lambda type_item: type_item != "null", prop_obj.get("type", []))
-            )
-
-            # Check if we're down to one item
-            if len(prop_obj["type"]) == 1:
-                prop_obj["type"] = prop_obj["type"][0]
+        if is_nullable(prop_obj.get("type", [])):
+            required = False
 
         # Generate JSONSchema Property
         prop = JSONSchemaProperty(
@@ -331,7 +324,14 @@ def generate_definition_from_schema(schema: InputRecordSchema) -> dict[str, Any]
     return {
         to_pascal_case(get_value_from_uri(str(schema.name))): {
             "type": "object",
-            "properties": {prop.name: prop.type_dict for prop in property_list},
+            "properties": {
+                prop.name: (
+                    {"anyOf": [{"type": "null"}, prop.type_dict]}
+                    if prop.required is False
+                    else prop.type_dict
+                )
+                for prop in property_list
+            },
             "required": [prop.name for prop in property_list if prop.required],
         }
     }
-- 
2.43.0


From 07ea6ca559c195446613b99ce2ff539bd6ada5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:35 +0000
Subject: [PATCH 066/121] fix: the dependencies of JSON schema definitions are
 collected once

---
 src/cwl_utils/inputs_schema_gen.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index 20b275c..9c4d334 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -518,12 +518,10 @@ def get_property_dependencies(
         if reference_value not in existing_property_dependencies:
             existing_property_dependencies.append(reference_value)
             # Get the property dependencies of the reference value
-            existing_property_dependencies.extend(
-                get_property_dependencies(
-                    input_json_schema["definitions"][reference_value],
-                    input_json_schema,
-                    existing_property_dependencies,
-                )
+            get_property_dependencies(
+                input_json_schema["definitions"][reference_value],
+                input_json_schema,
+                existing_property_dependencies,
             )
 
     return existing_property_dependencies
-- 
2.43.0


From e2499c59b058d4def6f5f004ed12da87662c75e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:43 +0000
Subject: [PATCH 067/121] fix: types of similar names have a JSON schema
 definition each

---
 src/cwl_utils/inputs_schema_gen.py | 72 +++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 27 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index 9c4d334..ebc40f6 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -8,6 +8,7 @@
 import argparse
 import json
 import logging
+import re
 import sys
 from contextlib import suppress
 from copy import deepcopy
@@ -72,6 +73,13 @@ def is_nullable(type_: Any) -> bool:
     return bool(type_ == "null" or (isinstance(type_, list) and "null" in type_))
 
 
+def definition_name(uri: str, names: dict[str, str] | None = None) -> str:
+    """Name the JSON schema definition of a type."""
+    if names is not None and uri in names:
+        return names[uri]
+    return to_pascal_case(get_value_from_uri(uri))
+
+
 # Don't need type checking at runtime
 
 
@@ -84,8 +92,10 @@ class JSONSchemaProperty:
         type_: InputType | list[InputType] | str | Any,
         description: str | None = "",
         required: bool | None = False,
+        names: dict[str, str] | None = None,
     ):
         """Initialise the JSONSchemaProperty object."""
+        self.names = names
         # Initialise values
         self.name: str = name
         self.type_: InputType | list[InputType] | str | Any = type_
@@ -137,9 +147,7 @@ class JSONSchemaProperty:
                 return {"$ref": f"#/definitions/{type_item}"}
             # When item is a record schema type
             case str() if is_uri(type_item):
-                return {
-                    "$ref": f"#/definitions/{to_pascal_case(get_value_from_uri(type_item))}"
-                }
+                return {"$ref": f"#/definitions/{definition_name(type_item, self.names)}"}
             case str():
                 raise ValueError(f"Unknown type: {type_item}")
             case (
@@ -254,11 +262,13 @@ def get_is_required_from_input_parameter(
 
 def generate_json_schema_property_from_input_parameter(
     input_parameter: WorkflowInputParameter,
+    names: dict[str, str] | None = None,
 ) -> JSONSchemaProperty:
     """
     Given an input parameter, generate a JSON schema property.
 
     :param input_parameter:
+    :param names: the names of the definitions, by the URI of the type
     :return:
     """
     # Get the input name and documentation for description
@@ -273,14 +283,18 @@ def generate_json_schema_property_from_input_parameter(
         type_=input_parameter.type_,
         description=doc if doc is not None else "",
         required=required,
+        names=names,
     )
 
 
-def generate_definition_from_schema(schema: InputRecordSchema) -> dict[str, Any]:
+def generate_definition_from_schema(
+    schema: InputRecordSchema, names: dict[str, str] | None = None
+) -> dict[str, Any]:
     """
     Given a schema, generate a JSON schema definition.
 
     :param schema:
+    :param names: the names of the definitions, by the URI of the type
     :return:
     """
     # Sanitise each field of the schema
@@ -318,11 +332,12 @@ def generate_definition_from_schema(schema: InputRecordSchema) -> dict[str, Any]
             type_=prop_obj.get("type"),
             description=prop_obj.get("doc", ""),
             required=required,
+            names=names,
         )
         property_list.append(prop)
 
     return {
-        to_pascal_case(get_value_from_uri(str(schema.name))): {
+        definition_name(str(schema.name), names): {
             "type": "object",
             "properties": {
                 prop.name: (
@@ -405,14 +420,6 @@ def cwl_to_jsonschema(cwl_obj: Workflow | CommandLineTool) -> Any:
         )
     )
 
-    # Load in all $imports to be referred by complex input types
-    workflow_schema_definitions_list = list(
-        map(
-            generate_definition_from_schema,
-            complex_schema_values,
-        )
-    )
-
     if cwl_obj.requirements is not None:
         with suppress(StopIteration):
             schema_def_requirement = next(
@@ -423,14 +430,27 @@ def cwl_to_jsonschema(cwl_obj: Workflow | CommandLineTool) -> Any:
                 )
             )
 
-            workflow_schema_definitions_list.extend(
-                list(
-                    map(
-                        generate_definition_from_schema,
-                        schema_def_requirement.types,
-                    )
-                )
-            )
+            complex_schema_values.extend(schema_def_requirement.types)
+
+    # Types of the same name in different files need different definitions
+    names: dict[str, str] = {}
+    taken = set(input_json_schema["definitions"])
+    for schema in complex_schema_values:
+        uri = str(schema.name)
+        if uri not in names:
+            name = re.sub("[^\\w.-]", "_", definition_name(uri), flags=re.ASCII)
+            names[uri] = name
+            count = 1
+            while names[uri] in taken:
+                count += 1
+                names[uri] = f"{name}{count}"
+            taken.add(names[uri])
+
+    # Load in all $imports to be referred by complex input types
+    workflow_schema_definitions_list = [
+        generate_definition_from_schema(schema, names)
+        for schema in complex_schema_values
+    ]
 
     # Convert schema definitions to dict
     workflow_schema_definitions_dict = {}
@@ -438,12 +458,10 @@ def cwl_to_jsonschema(cwl_obj: Workflow | CommandLineTool) -> Any:
         workflow_schema_definitions_dict.update(schema_definition)
 
     # Generate JSON Schema Properties
-    properties = list(
-        map(
-            generate_json_schema_property_from_input_parameter,
-            cwl_obj.inputs,
-        )
-    )
+    properties = [
+        generate_json_schema_property_from_input_parameter(input_parameter, names)
+        for input_parameter in cwl_obj.inputs
+    ]
 
     # Generate JSON schema
     input_json_schema.update(
-- 
2.43.0


From 9c80697e9037b3acedf81064ec58a1a0d1739790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:51 +0000
Subject: [PATCH 068/121] fix: enumerations and arrays of SchemaDefRequirement
 have JSON schema definitions

---
 src/cwl_utils/inputs_schema_gen.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index ebc40f6..96601dc 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -297,12 +297,13 @@ def generate_definition_from_schema(
     :param names: the names of the definitions, by the URI of the type
     :return:
     """
+    if not isinstance(schema, InputRecordSchemaTypes) or schema.fields is None:
+        name = definition_name(str(schema.name), names)
+        return {name: JSONSchemaProperty(name=name, type_=schema, names=names).type_dict}
+
     # Sanitise each field of the schema
     sanitised_fields = {}
 
-    if schema.fields is None:
-        return {}
-
     for field in schema.fields:
         sanitised_fields.update(
             {
-- 
2.43.0


From dfb0c2b66e14c0496e5a833b08859624ddb06204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 069/121] fix: the size of a File is an integer in JSON schemas

---
 .../templates/workflow_input_json_schema_template.json          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/templates/workflow_input_json_schema_template.json b/src/cwl_utils/templates/workflow_input_json_schema_template.json
index b07fd03..f2f4e7b 100644
--- a/src/cwl_utils/templates/workflow_input_json_schema_template.json
+++ b/src/cwl_utils/templates/workflow_input_json_schema_template.json
@@ -372,7 +372,7 @@
                 },
                 "size": {
                     "description": "Optional file size (in bytes)",
-                    "type": "number"
+                    "type": "integer"
                 }
             },
             "required": [
-- 
2.43.0


From 705aa8ec2ee21f61691301c95bc78af271a9c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:56 +0000
Subject: [PATCH 070/121] fix: packing in one thread does not disturb packing
 in another

---
 src/cwl_utils/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index b278bc8..ec8cb64 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -41,8 +41,13 @@ _NoTimestampsConstructor.add_constructor(
     "tag:yaml.org,2002:timestamp", SafeConstructor.construct_yaml_str
 )
 
-fast_yaml = YAML(typ="safe")
-fast_yaml.Constructor = _NoTimestampsConstructor
+
+def _fast_yaml() -> YAML:
+    """Create a YAML reader; they keep state, so threads can not share one."""
+    result = YAML(typ="safe")
+    result.Constructor = _NoTimestampsConstructor
+    return result
+
 
 _USERNS: bool | None = None
 
@@ -124,7 +129,7 @@ def load_linked_file(
 
     if is_import:
         try:
-            _node = fast_yaml.load(contents)
+            _node = _fast_yaml().load(contents)
         except ParserError as e:
             e.context = f"\n===\nMalformed file: {new_url.geturl()}\n===\n" + e.context
             raise SystemExit(e) from e
-- 
2.43.0


From e5ccee41714e6a6231091623022d95a162c61255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:24 +0000
Subject: [PATCH 071/121] fix: a refactored CommandLineTool is saved with the
 identifiers of its document

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 23 +++++++++++--------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 23 +++++++++++--------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 23 +++++++++++--------
 3 files changed, 39 insertions(+), 30 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index d584224..47a94a2 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -246,7 +246,7 @@ def traverse(
             step_outputs = []
             if process.inputs:
                 for inp in process.inputs:
-                    inp_id = inp.id.split("#")[-1]
+                    inp_id = inp.id.split("#")[-1].split("/")[-1]
                     step_inputs.append(
                         cwl.WorkflowStepInput(
                             id=inp_id,
@@ -271,7 +271,7 @@ def traverse(
                     )
             if process.outputs:
                 for outp in process.outputs:
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     step_outputs.append(outp_id)
                     wf_outputs.append(
                         cwl.WorkflowOutputParameter(
@@ -288,7 +288,7 @@ def traverse(
                         )
                     )
             step = cwl.WorkflowStep(
-                id="#main",
+                id="main",
                 in_=step_inputs,
                 out=step_outputs,
                 run=copy.deepcopy(process),
@@ -298,6 +298,7 @@ def traverse(
                 outputs=wf_outputs,
                 steps=[step],
                 cwlVersion=process.cwlVersion,
+                loadingOptions=process.loadingOptions,
             )
             result, modified = traverse_workflow(
                 workflow, replace_etool, skip_command_line1, skip_command_line2
@@ -499,7 +500,7 @@ def empty_inputs(
     result = {}
     if isinstance(process_or_step, cwl.Process):
         for param in process_or_step.inputs:
-            result[param.id.split("#")[-1]] = example_input(param.type_)
+            result[param.id.split("#")[-1].split("/")[-1]] = example_input(param.type_)
     else:
         for param in process_or_step.in_:
             param_id = param.id.split("/")[-1]
@@ -584,7 +585,7 @@ TOPLEVEL_FORMAT_EXPR_ERROR = (
 
 def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) -> None:
     for new_outp in ctool.outputs:
-        if new_outp.id.split("#")[-1] == outp_id:
+        if new_outp.id.split("#")[-1].split("/")[-1] == outp_id:
             if isinstance(
                 new_outp,
                 (
@@ -1337,7 +1338,7 @@ def traverse_CommandLineTool(
             )
             if expression:
                 modified = True
-                self_id = inp.id.split("#")[-1]
+                self_id = inp.id.split("#")[-1].split("/")[-1]
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
                 replace_step_clt_expr_with_etool(
@@ -1358,7 +1359,9 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
                 if expression:
                     modified = True
-                    inp_id = "_{}_glob".format(outp.id.split("#")[-1])
+                    inp_id = "_{}_glob".format(
+                        outp.id.split("#")[-1].split("/")[-1]
+                    )
                     etool_id = f"_expression_{step_id}{inp_id}"
                     glob_target_type = ["string", ArraySchema("string", "array")]
                     target = cwl.InputParameter(id=None, type_=glob_target_type)
@@ -1392,7 +1395,7 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
                     modified = True
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     inp_id = f"_{outp_id}_outputEval"
                     etool_id = f"expression{inp_id}"
                     sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
@@ -1477,9 +1480,9 @@ def traverse_CommandLineTool(
                     for index, out in enumerate(new_clt_step.out):
                         new_clt_step.out[index] = out.split("/")[-1]
                     for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1]
+                        tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
                     for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1]
+                        tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
                     sub_wf_steps = [new_clt_step, etool_step]
                     sub_workflow = cwl.Workflow(
                         inputs=sub_wf_inputs,
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 685520e..dd6da6e 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -246,7 +246,7 @@ def traverse(
             step_outputs = []
             if process.inputs:
                 for inp in process.inputs:
-                    inp_id = inp.id.split("#")[-1]
+                    inp_id = inp.id.split("#")[-1].split("/")[-1]
                     step_inputs.append(
                         cwl.WorkflowStepInput(
                             id=inp_id,
@@ -271,7 +271,7 @@ def traverse(
                     )
             if process.outputs:
                 for outp in process.outputs:
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     step_outputs.append(outp_id)
                     wf_outputs.append(
                         cwl.WorkflowOutputParameter(
@@ -288,7 +288,7 @@ def traverse(
                         )
                     )
             step = cwl.WorkflowStep(
-                id="#main",
+                id="main",
                 in_=step_inputs,
                 out=step_outputs,
                 run=copy.deepcopy(process),
@@ -298,6 +298,7 @@ def traverse(
                 outputs=wf_outputs,
                 steps=[step],
                 cwlVersion=process.cwlVersion,
+                loadingOptions=process.loadingOptions,
             )
             result, modified = traverse_workflow(
                 workflow, replace_etool, skip_command_line1, skip_command_line2
@@ -497,7 +498,7 @@ def empty_inputs(
     result = {}
     if isinstance(process_or_step, cwl.Process):
         for param in process_or_step.inputs:
-            result[param.id.split("#")[-1]] = example_input(param.type_)
+            result[param.id.split("#")[-1].split("/")[-1]] = example_input(param.type_)
     else:
         for param in process_or_step.in_:
             param_id = param.id.split("/")[-1]
@@ -582,7 +583,7 @@ TOPLEVEL_FORMAT_EXPR_ERROR = (
 
 def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) -> None:
     for new_outp in ctool.outputs:
-        if new_outp.id.split("#")[-1] == outp_id:
+        if new_outp.id.split("#")[-1].split("/")[-1] == outp_id:
             if isinstance(
                 new_outp,
                 (
@@ -1339,7 +1340,7 @@ def traverse_CommandLineTool(
             )
             if expression:
                 modified = True
-                self_id = inp.id.split("#")[-1]
+                self_id = inp.id.split("#")[-1].split("/")[-1]
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
                 replace_step_clt_expr_with_etool(
@@ -1360,7 +1361,9 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
                 if expression:
                     modified = True
-                    inp_id = "_{}_glob".format(outp.id.split("#")[-1])
+                    inp_id = "_{}_glob".format(
+                        outp.id.split("#")[-1].split("/")[-1]
+                    )
                     etool_id = f"_expression_{step_id}{inp_id}"
                     glob_target_type = ["string", ArraySchema("string", "array")]
                     target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
@@ -1394,7 +1397,7 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
                     modified = True
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     inp_id = f"_{outp_id}_outputEval"
                     etool_id = f"expression{inp_id}"
                     sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
@@ -1479,9 +1482,9 @@ def traverse_CommandLineTool(
                     for index, out in enumerate(new_clt_step.out):
                         new_clt_step.out[index] = out.split("/")[-1]
                     for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1]
+                        tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
                     for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1]
+                        tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
                     sub_wf_steps = [new_clt_step, etool_step]
                     sub_workflow = cwl.Workflow(
                         inputs=sub_wf_inputs,
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index eca589a..58b379d 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -247,7 +247,7 @@ def traverse(
             step_outputs = []
             if process.inputs:
                 for inp in process.inputs:
-                    inp_id = inp.id.split("#")[-1]
+                    inp_id = inp.id.split("#")[-1].split("/")[-1]
                     step_inputs.append(
                         cwl.WorkflowStepInput(
                             id=inp_id,
@@ -272,7 +272,7 @@ def traverse(
                     )
             if process.outputs:
                 for outp in process.outputs:
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     step_outputs.append(outp_id)
                     wf_outputs.append(
                         cwl.WorkflowOutputParameter(
@@ -289,7 +289,7 @@ def traverse(
                         )
                     )
             step = cwl.WorkflowStep(
-                id="#main",
+                id="main",
                 in_=step_inputs,
                 out=step_outputs,
                 run=copy.deepcopy(process),
@@ -299,6 +299,7 @@ def traverse(
                 outputs=wf_outputs,
                 steps=[step],
                 cwlVersion=process.cwlVersion,
+                loadingOptions=process.loadingOptions,
             )
             result, modified = traverse_workflow(
                 workflow, replace_etool, skip_command_line1, skip_command_line2
@@ -502,7 +503,7 @@ def empty_inputs(
     result = {}
     if isinstance(process_or_step, cwl.Process):
         for param in process_or_step.inputs:
-            result[param.id.split("#")[-1]] = example_input(param.type_)
+            result[param.id.split("#")[-1].split("/")[-1]] = example_input(param.type_)
     else:
         for param in process_or_step.in_:
             param_id = param.id.split("/")[-1]
@@ -631,7 +632,7 @@ PICKVALUE_ERROR = (
 
 def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) -> None:
     for new_outp in ctool.outputs:
-        if new_outp.id.split("#")[-1] == outp_id:
+        if new_outp.id.split("#")[-1].split("/")[-1] == outp_id:
             if isinstance(
                 new_outp,
                 (
@@ -1448,7 +1449,7 @@ def traverse_CommandLineTool(
             )
             if expression:
                 modified = True
-                self_id = inp.id.split("#")[-1]
+                self_id = inp.id.split("#")[-1].split("/")[-1]
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
                 replace_step_clt_expr_with_etool(
@@ -1469,7 +1470,9 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
                 if expression:
                     modified = True
-                    inp_id = "_{}_glob".format(outp.id.split("#")[-1])
+                    inp_id = "_{}_glob".format(
+                        outp.id.split("#")[-1].split("/")[-1]
+                    )
                     etool_id = f"_expression_{step_id}{inp_id}"
                     glob_target_type = ["string", ArraySchema("string", "array")]
                     target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
@@ -1503,7 +1506,7 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
                     modified = True
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     inp_id = f"_{outp_id}_outputEval"
                     etool_id = f"expression{inp_id}"
                     sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
@@ -1588,9 +1591,9 @@ def traverse_CommandLineTool(
                     for index, out in enumerate(new_clt_step.out):
                         new_clt_step.out[index] = out.split("/")[-1]
                     for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1]
+                        tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
                     for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1]
+                        tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
                     sub_wf_steps = [new_clt_step, etool_step]
                     sub_workflow = cwl.Workflow(
                         inputs=sub_wf_inputs,
-- 
2.43.0


From 81d90e4413c5deab199a00061dddc77ffaa97982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:24 +0000
Subject: [PATCH 072/121] fix: expressions in arguments are connected to their
 step

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 47a94a2..0bd90b9 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1274,7 +1274,7 @@ def traverse_CommandLineTool(
                     )
                     step.in_.append(
                         cwl.WorkflowStepInput(
-                            f"{etool_id}/result", None, inp_id, None, None
+                            id=inp_id, source=f"{etool_id}/result"
                         )
                     )
                     cwl_utils.expression_refactor.remove_JSReq(
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index dd6da6e..fc13ec3 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1276,7 +1276,7 @@ def traverse_CommandLineTool(
                     )
                     step.in_.append(
                         cwl.WorkflowStepInput(
-                            f"{etool_id}/result", None, inp_id, None, None
+                            id=inp_id, source=f"{etool_id}/result"
                         )
                     )
                     cwl_utils.expression_refactor.remove_JSReq(
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 58b379d..c2a82cb 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1385,7 +1385,7 @@ def traverse_CommandLineTool(
                     )
                     step.in_.append(
                         cwl.WorkflowStepInput(
-                            f"{etool_id}/result", None, inp_id, None, None
+                            id=inp_id, source=f"{etool_id}/result"
                         )
                     )
                     cwl_utils.expression_refactor.remove_JSReq(
-- 
2.43.0


From 0af3bf7653cca788ffc65ca47908729ea64998bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:46 +0000
Subject: [PATCH 073/121] fix: the input for a refactored glob has a type of
 the document's CWL version

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 5 ++++-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 5 ++++-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 0bd90b9..32ec8af 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1363,7 +1363,10 @@ def traverse_CommandLineTool(
                         outp.id.split("#")[-1].split("/")[-1]
                     )
                     etool_id = f"_expression_{step_id}{inp_id}"
-                    glob_target_type = ["string", ArraySchema("string", "array")]
+                    glob_target_type = [
+                        "string",
+                        cwl.CommandInputArraySchema(items="string", type_="array"),
+                    ]
                     target = cwl.InputParameter(id=None, type_=glob_target_type)
                     replace_step_clt_expr_with_etool(
                         expression, etool_id, parent, target, step, replace_etool
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index fc13ec3..ca4b462 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1365,7 +1365,10 @@ def traverse_CommandLineTool(
                         outp.id.split("#")[-1].split("/")[-1]
                     )
                     etool_id = f"_expression_{step_id}{inp_id}"
-                    glob_target_type = ["string", ArraySchema("string", "array")]
+                    glob_target_type = [
+                        "string",
+                        cwl.CommandInputArraySchema(items="string", type_="array"),
+                    ]
                     target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
                     replace_step_clt_expr_with_etool(
                         expression, etool_id, parent, target, step, replace_etool
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index c2a82cb..99126c5 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1474,7 +1474,10 @@ def traverse_CommandLineTool(
                         outp.id.split("#")[-1].split("/")[-1]
                     )
                     etool_id = f"_expression_{step_id}{inp_id}"
-                    glob_target_type = ["string", ArraySchema("string", "array")]
+                    glob_target_type = [
+                        "string",
+                        cwl.CommandInputArraySchema(items="string", type_="array"),
+                    ]
                     target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
                     replace_step_clt_expr_with_etool(
                         expression, etool_id, parent, target, step, replace_etool
-- 
2.43.0


From 7c4c490b67f3659a1cc0397251ba48aca98546c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:46 +0000
Subject: [PATCH 074/121] fix: a refactored pickValue keeps linkMerge and
 accepts array outputs

---
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 99126c5..e1b2801 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -709,13 +709,17 @@ def process_workflow_inputs_and_outputs(
                 )
                 target_type = copy.deepcopy(param2.type_)
                 if isinstance(target_type, cwl.OutputArraySchema):
-                    target_type.name = ""
+                    target_type.name = None
                 target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                 if not isinstance(param2.outputSource, list):
                     sources = param2.outputSource.split("#")[-1]
                 else:
                     sources = [s.split("#")[-1] for s in param2.outputSource]
-                source_type_items = utils.type_for_source(workflow, sources)
+                source_type_items = copy.deepcopy(
+                    utils.type_for_source(
+                        workflow, sources, linkMerge=param2.linkMerge
+                    )
+                )
                 if isinstance(source_type_items, ArraySchema):
                     if isinstance(source_type_items.items, list):
                         if "null" not in source_type_items.items:
@@ -740,6 +744,8 @@ def process_workflow_inputs_and_outputs(
                     None,
                     source_type,
                 )
+                workflow.steps[-1].in_[0].linkMerge = param2.linkMerge
+                param2.linkMerge = None
                 param2.outputSource = f"{etool_id}/result"
                 param2.pickValue = None
                 generated_pickValue_steps.append(etool_id)
-- 
2.43.0


From d9c0698be5b95687e3bb60fd4ef6eda7e820b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:46 +0000
Subject: [PATCH 075/121] fix: expressions in EnvVarRequirement of a tool can
 be refactored

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 7 +++----
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 7 +++----
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 7 +++----
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 32ec8af..f575d25 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1000,16 +1000,15 @@ def process_level_reqs(
                         etool_id = "_expression_{}_EnvVarRequirement_{}".format(
                             step_name, env_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
-                            process,
                         )
-                        target_process.requirements[req_index][
+                        target_process.requirements[req_index].envDef[
                             env_index
                         ].envValue = f"$(inputs._envDef{env_index})"
                         generated_envVar_reqs.append((etool_id, env_index))
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index ca4b462..01586a5 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1002,16 +1002,15 @@ def process_level_reqs(
                         etool_id = "_expression_{}_EnvVarRequirement_{}".format(
                             step_name, env_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
-                            process,
                         )
-                        target_process.requirements[req_index][
+                        target_process.requirements[req_index].envDef[
                             env_index
                         ].envValue = f"$(inputs._envDef{env_index})"
                         generated_envVar_reqs.append((etool_id, env_index))
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index e1b2801..64b3bef 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1117,16 +1117,15 @@ def process_level_reqs(
                         etool_id = "_expression_{}_EnvVarRequirement_{}".format(
                             step_name, env_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
-                            process,
                         )
-                        target_process.requirements[req_index][
+                        target_process.requirements[req_index].envDef[
                             env_index
                         ].envValue = f"$(inputs._envDef{env_index})"
                         generated_envVar_reqs.append((etool_id, env_index))
-- 
2.43.0


From 1c9293f84c234f3e2e9e78f13e484cd4cdb7bd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:46 +0000
Subject: [PATCH 076/121] fix: refactored expressions keep their last character

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 6 +++---
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 6 +++---
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index f575d25..e597b60 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -150,7 +150,7 @@ def get_expression(
                 )
             else:
                 # it is a CWL Expression in $() with no string interpolation
-                return "${return " + string.strip()[2:-1] + ";}"
+                return "${return (" + string.strip()[2:-1] + "\n);}"
     return None
 
 
@@ -400,7 +400,7 @@ def generate_etool_from_expr(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
@@ -1732,7 +1732,7 @@ def generate_etool_from_expr2(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 01586a5..6ca33cb 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -150,7 +150,7 @@ def get_expression(
                 )
             else:
                 # it is a CWL Expression in $() with no string interpolation
-                return "${return " + string.strip()[2:-1] + ";}"
+                return "${return (" + string.strip()[2:-1] + "\n);}"
     return None
 
 
@@ -398,7 +398,7 @@ def generate_etool_from_expr(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
@@ -1738,7 +1738,7 @@ def generate_etool_from_expr2(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 64b3bef..d2a9cc8 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -149,7 +149,7 @@ def get_expression(
                 )
             else:
                 # it is a CWL Expression in $() with no string interpolation
-                return "${return " + string.strip()[2:-1] + ";}"
+                return "${return (" + string.strip()[2:-1] + "\n);}"
     return None
 
 
@@ -399,7 +399,7 @@ def generate_etool_from_expr(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
@@ -1857,7 +1857,7 @@ def generate_etool_from_expr2(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
-- 
2.43.0


From 5d60bee446f89da54baa0dcaee3e38abd6d76c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:36 +0000
Subject: [PATCH 077/121] fix: generated ExpressionTools have one
 InlineJavascriptRequirement

---
 src/cwl_utils/expression_refactor.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index f4f4353..889ea08 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -35,9 +35,11 @@ from cwl_utils.parser import (
     Workflow,
     CommandOutputParameter,
     ExpressionTool,
+    EnvVarRequirement,
     InitialWorkDirRequirement,
     InlineJavascriptRequirement,
     ProcessRequirement,
+    ResourceRequirement,
     CommandLineTool,
     load_document_by_uri,
     CommandLineBinding,
@@ -265,16 +267,20 @@ def generate_etool_from_expr2(
         procs.append(process)
     if extra_processes:
         procs.extend(extra_processes)
+    # The generated ExpressionTool gets its own InlineJavascriptRequirement;
+    # the other requirements are about running a command
+    unneeded = (
+        EnvVarRequirement,
+        InitialWorkDirRequirement,
+        InlineJavascriptRequirement,
+        ResourceRequirement,
+    )
     if process:
         if process.hints:
-            hints = [
-                x for x in process.hints if not isinstance(x, InitialWorkDirRequirement)
-            ]
+            hints = [x for x in process.hints if not isinstance(x, unneeded)]
         if process.requirements:
             requirements = [
-                x
-                for x in process.requirements
-                if not isinstance(x, InitialWorkDirRequirement)
+                x for x in process.requirements if not isinstance(x, unneeded)
             ]
     cwlVersion = (
         process.cwlVersion if process and process.cwlVersion is not None else cwlVersion
-- 
2.43.0


From 1975cb486f41c0b9b45469dc042654bec702d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:36 +0000
Subject: [PATCH 078/121] fix: refactored expressions use the expressionLib of
 their own process

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 64 +++++++++++++++----
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 64 +++++++++++++++----
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 64 +++++++++++++++----
 3 files changed, 153 insertions(+), 39 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index e597b60..63abeb1 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1007,6 +1007,7 @@ def process_level_reqs(
                             target,
                             step,
                             replace_etool,
+                            process=process,
                         )
                         target_process.requirements[req_index].envDef[
                             env_index
@@ -1030,6 +1031,7 @@ def process_level_reqs(
                             target,
                             step,
                             replace_etool,
+                            process=process,
                         )
                         setattr(
                             target_process.requirements[req_index],
@@ -1157,6 +1159,7 @@ return result; }"""
                                     target,
                                     step,
                                     replace_etool,
+                                    process=process,
                                 )
                                 target_process.requirements[req_index].listing[
                                     listing_index
@@ -1256,7 +1259,13 @@ def traverse_CommandLineTool(
                     target_type = "Any"
                     target = cwl.InputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression,
+                        etool_id,
+                        parent,
+                        target,
+                        step,
+                        replace_etool,
+                        process=clt,
                     )
                     target_clt.arguments[index] = (
                         cwl_utils.expression_refactor.get_command_line_binding(
@@ -1288,7 +1297,13 @@ def traverse_CommandLineTool(
                     target_type = "Any"
                     target = cwl.InputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression,
+                        etool_id,
+                        parent,
+                        target,
+                        step,
+                        replace_etool,
+                        process=clt,
                     )
                     target_clt.arguments[index].valueFrom = "$(inputs.{})".format(
                         inp_id
@@ -1317,7 +1332,13 @@ def traverse_CommandLineTool(
                 target_type = "string"
                 target = cwl.InputParameter(id=None, type_=target_type)
                 replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, target, step, replace_etool
+                    expression,
+                    etool_id,
+                    parent,
+                    target,
+                    step,
+                    replace_etool,
+                    process=clt,
                 )
                 setattr(target_clt, streamtype, f"$(inputs.{inp_id})")
                 target_clt.inputs.append(
@@ -1341,7 +1362,14 @@ def traverse_CommandLineTool(
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
                 replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, inp, step, replace_etool, self_id
+                    expression,
+                    etool_id,
+                    parent,
+                    inp,
+                    step,
+                    replace_etool,
+                    self_id,
+                    process=clt,
                 )
                 inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
                 target_clt.inputs.append(
@@ -1368,7 +1396,13 @@ def traverse_CommandLineTool(
                     ]
                     target = cwl.InputParameter(id=None, type_=glob_target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression,
+                        etool_id,
+                        parent,
+                        target,
+                        step,
+                        replace_etool,
+                        process=clt,
                     )
                     outp.outputBinding.glob = f"$(inputs.{inp_id})"
                     target_clt.inputs.append(
@@ -1408,7 +1442,7 @@ def traverse_CommandLineTool(
                         type_=cwl.InputArraySchema("File", "array", None, None),
                     )
                     etool = generate_etool_from_expr(
-                        expression, outp, False, self_type, [clt, step, parent]
+                        expression, outp, False, self_type, [parent, step, clt]
                     )
                     if outp.outputBinding.loadContents:
                         etool.inputs[0].type_.inputBinding = (
@@ -1451,7 +1485,9 @@ def traverse_CommandLineTool(
                         final_etool = cwl_utils.expression_refactor.etool_to_cltool(
                             etool,
                             _DEFAULT_CWL_VERSION,
-                            cwl_utils.expression_refactor.find_expressionLib([parent]),
+                            cwl_utils.expression_refactor.find_expressionLib(
+                                [parent, step, clt]
+                            ),
                         )
                     else:
                         final_etool = etool
@@ -1555,6 +1591,7 @@ def replace_step_clt_expr_with_etool(
     step: cwl.WorkflowStep,
     replace_etool: bool,
     self_name: str | None = None,
+    process: cwl_utils.parser.Process | None = None,
 ) -> None:
     """Convert a step level CWL Expression to a sibling expression step."""
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
@@ -1566,12 +1603,12 @@ def replace_step_clt_expr_with_etool(
         target,
         etool_inputs,
         self_name,
-        step.run,
-        [workflow],
+        process or step.run,
+        [workflow, step, process or step.run],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
-        processes = [workflow]
+        processes = [workflow, step, process or step.run]
         etool = cwl_utils.expression_refactor.etool_to_cltool(
             temp_etool,
             _DEFAULT_CWL_VERSION,
@@ -1601,6 +1638,7 @@ def replace_clt_hintreq_expr_with_etool(
     step: cwl.WorkflowStep,
     replace_etool: bool,
     self_name: str | None = None,
+    process: cwl_utils.parser.Process | None = None,
 ) -> None:
     """Factor out an expression inside a CommandLineTool req or hint into a sibling step."""
     # Same as replace_step_clt_expr_with_etool or different?
@@ -1613,12 +1651,12 @@ def replace_clt_hintreq_expr_with_etool(
         target,
         etool_inputs,
         self_name,
-        step.run,
-        [workflow],
+        process or step.run,
+        [workflow, step, process or step.run],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
-        processes = [workflow]
+        processes = [workflow, step, process or step.run]
         etool = cwl_utils.expression_refactor.etool_to_cltool(
             temp_etool,
             _DEFAULT_CWL_VERSION,
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 6ca33cb..4423fd8 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1009,6 +1009,7 @@ def process_level_reqs(
                             target,
                             step,
                             replace_etool,
+                            process=process,
                         )
                         target_process.requirements[req_index].envDef[
                             env_index
@@ -1032,6 +1033,7 @@ def process_level_reqs(
                             target,
                             step,
                             replace_etool,
+                            process=process,
                         )
                         setattr(
                             target_process.requirements[req_index],
@@ -1159,6 +1161,7 @@ return result; }"""
                                     target,
                                     step,
                                     replace_etool,
+                                    process=process,
                                 )
                                 target_process.requirements[req_index].listing[
                                     listing_index
@@ -1258,7 +1261,13 @@ def traverse_CommandLineTool(
                     target_type = "Any"
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression,
+                        etool_id,
+                        parent,
+                        target,
+                        step,
+                        replace_etool,
+                        process=clt,
                     )
                     target_clt.arguments[index] = (
                         cwl_utils.expression_refactor.get_command_line_binding(
@@ -1290,7 +1299,13 @@ def traverse_CommandLineTool(
                     target_type = "Any"
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression,
+                        etool_id,
+                        parent,
+                        target,
+                        step,
+                        replace_etool,
+                        process=clt,
                     )
                     target_clt.arguments[index].valueFrom = "$(inputs.{})".format(
                         inp_id
@@ -1319,7 +1334,13 @@ def traverse_CommandLineTool(
                 target_type = "string"
                 target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                 replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, target, step, replace_etool
+                    expression,
+                    etool_id,
+                    parent,
+                    target,
+                    step,
+                    replace_etool,
+                    process=clt,
                 )
                 setattr(target_clt, streamtype, f"$(inputs.{inp_id})")
                 target_clt.inputs.append(
@@ -1343,7 +1364,14 @@ def traverse_CommandLineTool(
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
                 replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, inp, step, replace_etool, self_id
+                    expression,
+                    etool_id,
+                    parent,
+                    inp,
+                    step,
+                    replace_etool,
+                    self_id,
+                    process=clt,
                 )
                 inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
                 target_clt.inputs.append(
@@ -1370,7 +1398,13 @@ def traverse_CommandLineTool(
                     ]
                     target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression,
+                        etool_id,
+                        parent,
+                        target,
+                        step,
+                        replace_etool,
+                        process=clt,
                     )
                     outp.outputBinding.glob = f"$(inputs.{inp_id})"
                     target_clt.inputs.append(
@@ -1410,7 +1444,7 @@ def traverse_CommandLineTool(
                         type_=cwl.InputArraySchema("File", "array", None, None),
                     )
                     etool = generate_etool_from_expr(
-                        expression, outp, False, self_type, [clt, step, parent]
+                        expression, outp, False, self_type, [parent, step, clt]
                     )
                     if outp.outputBinding.loadContents:
                         etool.inputs[0].type_.inputBinding = (
@@ -1453,7 +1487,9 @@ def traverse_CommandLineTool(
                         final_etool = cwl_utils.expression_refactor.etool_to_cltool(
                             etool,
                             _DEFAULT_CWL_VERSION,
-                            cwl_utils.expression_refactor.find_expressionLib([parent]),
+                            cwl_utils.expression_refactor.find_expressionLib(
+                                [parent, step, clt]
+                            ),
                         )
                     else:
                         final_etool = etool
@@ -1557,6 +1593,7 @@ def replace_step_clt_expr_with_etool(
     step: cwl.WorkflowStep,
     replace_etool: bool,
     self_name: str | None = None,
+    process: cwl_utils.parser.Process | None = None,
 ) -> None:
     """Convert a step level CWL Expression to a sibling expression step."""
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
@@ -1568,12 +1605,12 @@ def replace_step_clt_expr_with_etool(
         target,
         etool_inputs,
         self_name,
-        step.run,
-        [workflow],
+        process or step.run,
+        [workflow, step, process or step.run],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
-        processes = [workflow]
+        processes = [workflow, step, process or step.run]
         etool = cwl_utils.expression_refactor.etool_to_cltool(
             temp_etool,
             _DEFAULT_CWL_VERSION,
@@ -1603,6 +1640,7 @@ def replace_clt_hintreq_expr_with_etool(
     step: cwl.WorkflowStep,
     replace_etool: bool,
     self_name: str | None = None,
+    process: cwl_utils.parser.Process | None = None,
 ) -> None:
     """Factor out an expression inside a CommandLineTool req or hint into a sibling step."""
     # Same as replace_step_clt_expr_with_etool or different?
@@ -1615,12 +1653,12 @@ def replace_clt_hintreq_expr_with_etool(
         target,
         etool_inputs,
         self_name,
-        step.run,
-        [workflow],
+        process or step.run,
+        [workflow, step, process or step.run],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
-        processes = [workflow]
+        processes = [workflow, step, process or step.run]
         etool = cwl_utils.expression_refactor.etool_to_cltool(
             temp_etool,
             _DEFAULT_CWL_VERSION,
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index d2a9cc8..9a795b8 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1124,6 +1124,7 @@ def process_level_reqs(
                             target,
                             step,
                             replace_etool,
+                            process=process,
                         )
                         target_process.requirements[req_index].envDef[
                             env_index
@@ -1147,6 +1148,7 @@ def process_level_reqs(
                             target,
                             step,
                             replace_etool,
+                            process=process,
                         )
                         setattr(
                             target_process.requirements[req_index],
@@ -1274,6 +1276,7 @@ return result; }"""
                                     target,
                                     step,
                                     replace_etool,
+                                    process=process,
                                 )
                                 target_process.requirements[req_index].listing[
                                     listing_index
@@ -1373,7 +1376,13 @@ def traverse_CommandLineTool(
                     target_type = "Any"
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression,
+                        etool_id,
+                        parent,
+                        target,
+                        step,
+                        replace_etool,
+                        process=clt,
                     )
                     target_clt.arguments[index] = (
                         cwl_utils.expression_refactor.get_command_line_binding(
@@ -1405,7 +1414,13 @@ def traverse_CommandLineTool(
                     target_type = "Any"
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression,
+                        etool_id,
+                        parent,
+                        target,
+                        step,
+                        replace_etool,
+                        process=clt,
                     )
                     target_clt.arguments[index].valueFrom = "$(inputs.{})".format(
                         inp_id
@@ -1434,7 +1449,13 @@ def traverse_CommandLineTool(
                 target_type = "string"
                 target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                 replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, target, step, replace_etool
+                    expression,
+                    etool_id,
+                    parent,
+                    target,
+                    step,
+                    replace_etool,
+                    process=clt,
                 )
                 setattr(target_clt, streamtype, f"$(inputs.{inp_id})")
                 target_clt.inputs.append(
@@ -1458,7 +1479,14 @@ def traverse_CommandLineTool(
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
                 replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, inp, step, replace_etool, self_id
+                    expression,
+                    etool_id,
+                    parent,
+                    inp,
+                    step,
+                    replace_etool,
+                    self_id,
+                    process=clt,
                 )
                 inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
                 target_clt.inputs.append(
@@ -1485,7 +1513,13 @@ def traverse_CommandLineTool(
                     ]
                     target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression,
+                        etool_id,
+                        parent,
+                        target,
+                        step,
+                        replace_etool,
+                        process=clt,
                     )
                     outp.outputBinding.glob = f"$(inputs.{inp_id})"
                     target_clt.inputs.append(
@@ -1525,7 +1559,7 @@ def traverse_CommandLineTool(
                         type_=cwl.InputArraySchema("File", "array", None, None),
                     )
                     etool = generate_etool_from_expr(
-                        expression, outp, False, self_type, [clt, step, parent]
+                        expression, outp, False, self_type, [parent, step, clt]
                     )
                     if outp.outputBinding.loadContents:
                         etool.inputs[0].type_.inputBinding = (
@@ -1568,7 +1602,9 @@ def traverse_CommandLineTool(
                         final_etool = cwl_utils.expression_refactor.etool_to_cltool(
                             etool,
                             _DEFAULT_CWL_VERSION,
-                            cwl_utils.expression_refactor.find_expressionLib([parent]),
+                            cwl_utils.expression_refactor.find_expressionLib(
+                                [parent, step, clt]
+                            ),
                         )
                     else:
                         final_etool = etool
@@ -1672,6 +1708,7 @@ def replace_step_clt_expr_with_etool(
     step: cwl.WorkflowStep,
     replace_etool: bool,
     self_name: str | None = None,
+    process: cwl_utils.parser.Process | None = None,
 ) -> None:
     """Convert a step level CWL Expression to a sibling expression step."""
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
@@ -1683,12 +1720,12 @@ def replace_step_clt_expr_with_etool(
         target,
         etool_inputs,
         self_name,
-        step.run,
-        [workflow],
+        process or step.run,
+        [workflow, step, process or step.run],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
-        processes = [workflow]
+        processes = [workflow, step, process or step.run]
         etool = cwl_utils.expression_refactor.etool_to_cltool(
             temp_etool,
             _DEFAULT_CWL_VERSION,
@@ -1718,6 +1755,7 @@ def replace_clt_hintreq_expr_with_etool(
     step: cwl.WorkflowStep,
     replace_etool: bool,
     self_name: str | None = None,
+    process: cwl_utils.parser.Process | None = None,
 ) -> None:
     """Factor out an expression inside a CommandLineTool req or hint into a sibling step."""
     # Same as replace_step_clt_expr_with_etool or different?
@@ -1730,12 +1768,12 @@ def replace_clt_hintreq_expr_with_etool(
         target,
         etool_inputs,
         self_name,
-        step.run,
-        [workflow],
+        process or step.run,
+        [workflow, step, process or step.run],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
-        processes = [workflow]
+        processes = [workflow, step, process or step.run]
         etool = cwl_utils.expression_refactor.etool_to_cltool(
             temp_etool,
             _DEFAULT_CWL_VERSION,
-- 
2.43.0


From 9ae413b7cbacc275500cc40d9f41162ddb2c603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:19 +0000
Subject: [PATCH 079/121] fix: stream shortcuts of refactored tools are
 expanded

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 30 +++++++--------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 37 +++++++++++--------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 37 +++++++++++--------
 3 files changed, 59 insertions(+), 45 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 63abeb1..a1ee547 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -37,25 +37,23 @@ _DEFAULT_CWL_VERSION: Final = "v1.0"
 
 
 def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool:
-    """Rewrite the "type: stdout" shortcut to use an explicit random filename."""
-    if not process.outputs:
-        return process
-    result = None
+    """Rewrite the stream type shortcuts to use an explicit (random) filename."""
+    result = process
     for index, output in enumerate(process.outputs):
-        if output.type_ == "stdout":  # TODO: add 'stdin' for CWL v1.1
-            if not result:
+        if output.type_ in ("stdout", "stderr"):
+            if result is process:
                 result = copy.deepcopy(process)
-            stdout_path = process.stdout
-            if not stdout_path:
-                stdout_path = hashlib.sha1(  # nosec
-                    json_dumps(save(process)).encode("utf-8")
+            stream_path = getattr(result, output.type_)
+            if not stream_path:
+                stream_path = hashlib.sha1(  # nosec
+                    (output.type_ + json_dumps(save(process))).encode("utf-8")
                 ).hexdigest()
-                result.stdout = stdout_path
+                setattr(result, output.type_, stream_path)
             result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
-    if result:
-        return result
-    return process
+            result.outputs[index].outputBinding = cwl.CommandOutputBinding(
+                glob=stream_path
+            )
+    return result
 
 
 def escape_expression_field(contents: str) -> str:
@@ -1798,6 +1796,8 @@ def traverse_step(
     if not step.id:
         return False
     step_id = step.id.split("#")[-1]
+    if isinstance(step.run, cwl.CommandLineTool):
+        step.run = expand_stream_shortcuts(step.run)
     original_process = copy.deepcopy(step.run)
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 4423fd8..998e753 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -37,25 +37,30 @@ _DEFAULT_CWL_VERSION: Final = "v1.1"
 
 
 def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool:
-    """Rewrite the "type: stdout" shortcut to use an explicit random filename."""
-    if not process.outputs:
-        return process
-    result = None
+    """Rewrite the stream type shortcuts to use an explicit (random) filename."""
+    result = process
+    for index, inp in enumerate(process.inputs):
+        if inp.type_ == "stdin":
+            if result is process:
+                result = copy.deepcopy(process)
+            result.inputs[index].type_ = "File"
+            inp_id = inp.id.split("#")[-1].split("/")[-1]
+            result.stdin = f"$(inputs.{inp_id}.path)"
     for index, output in enumerate(process.outputs):
-        if output.type_ == "stdout":  # TODO: add 'stdin' for CWL v1.1
-            if not result:
+        if output.type_ in ("stdout", "stderr"):
+            if result is process:
                 result = copy.deepcopy(process)
-            stdout_path = process.stdout
-            if not stdout_path:
-                stdout_path = hashlib.sha1(  # nosec
-                    json_dumps(save(process)).encode("utf-8")
+            stream_path = getattr(result, output.type_)
+            if not stream_path:
+                stream_path = hashlib.sha1(  # nosec
+                    (output.type_ + json_dumps(save(process))).encode("utf-8")
                 ).hexdigest()
-                result.stdout = stdout_path
+                setattr(result, output.type_, stream_path)
             result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
-    if result:
-        return result
-    return process
+            result.outputs[index].outputBinding = cwl.CommandOutputBinding(
+                glob=stream_path
+            )
+    return result
 
 
 def escape_expression_field(contents: str) -> str:
@@ -1804,6 +1809,8 @@ def traverse_step(
     if not step.id:
         return False
     step_id = step.id.split("#")[-1]
+    if isinstance(step.run, cwl.CommandLineTool):
+        step.run = expand_stream_shortcuts(step.run)
     original_process = copy.deepcopy(step.run)
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 9a795b8..34249ad 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -36,25 +36,30 @@ _DEFAULT_CWL_VERSION: Final = "v1.2"
 
 
 def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool:
-    """Rewrite the "type: stdout" shortcut to use an explicit random filename."""
-    if not process.outputs:
-        return process
-    result = None
+    """Rewrite the stream type shortcuts to use an explicit (random) filename."""
+    result = process
+    for index, inp in enumerate(process.inputs):
+        if inp.type_ == "stdin":
+            if result is process:
+                result = copy.deepcopy(process)
+            result.inputs[index].type_ = "File"
+            inp_id = inp.id.split("#")[-1].split("/")[-1]
+            result.stdin = f"$(inputs.{inp_id}.path)"
     for index, output in enumerate(process.outputs):
-        if output.type_ == "stdout":  # TODO: add 'stdin' for CWL v1.1
-            if not result:
+        if output.type_ in ("stdout", "stderr"):
+            if result is process:
                 result = copy.deepcopy(process)
-            stdout_path = process.stdout
-            if not stdout_path:
-                stdout_path = hashlib.sha1(  # nosec
-                    json_dumps(save(process)).encode("utf-8")
+            stream_path = getattr(result, output.type_)
+            if not stream_path:
+                stream_path = hashlib.sha1(  # nosec
+                    (output.type_ + json_dumps(save(process))).encode("utf-8")
                 ).hexdigest()
-                result.stdout = stdout_path
+                setattr(result, output.type_, stream_path)
             result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
-    if result:
-        return result
-    return process
+            result.outputs[index].outputBinding = cwl.CommandOutputBinding(
+                glob=stream_path
+            )
+    return result
 
 
 def escape_expression_field(contents: str) -> str:
@@ -1923,6 +1928,8 @@ def traverse_step(
     if not step.id:
         return False
     step_id = step.id.split("#")[-1]
+    if isinstance(step.run, cwl.CommandLineTool):
+        step.run = expand_stream_shortcuts(step.run)
     original_process = copy.deepcopy(step.run)
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
-- 
2.43.0


From ea08cbca84147ee7984b1deb54f978c1cf3bda3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 080/121] fix: interpolated strings are refactored with quotes,
 escapes and JavaScript blocks

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 85 +++++++++----------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 85 +++++++++----------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 85 +++++++++----------
 src/cwl_utils/expression.py                   | 11 ++-
 4 files changed, 131 insertions(+), 135 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index a1ee547..7b11ae1 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -21,7 +21,7 @@ import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_0 as cwl
 import cwl_utils.parser.cwl_v1_0_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
-from cwl_utils.expression import do_eval, interpolate
+from cwl_utils.expression import do_eval, interpolate, needs_parsing, scanner
 from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
@@ -104,51 +104,48 @@ def get_expression(
 
     CWL expressions in the $() form are converted to the ${} form.
     """
-    if not isinstance(string, str):
+    if not needs_parsing(string):
         return None
-    if string.strip().startswith("${"):
-        return string
-    if "$(" in string:
-        runtime = CWLRuntimeParameterContext(
-            cores=0,
-            ram=0,
-            outdir="/root",
-            tmpdir="/tmp",  # nosec
-            outdirSize=0,
-            tmpdirSize=0,
+    stripped = string.strip()
+    # Is it a single expression, without any text around it?
+    single = scanner(stripped) == (0, len(stripped))
+    if single and stripped.startswith("${"):
+        return stripped
+    runtime = CWLRuntimeParameterContext(
+        cores=0,
+        ram=0,
+        outdir="/root",
+        tmpdir="/tmp",  # nosec
+        outdirSize=0,
+        tmpdirSize=0,
+    )
+    try:
+        do_eval(
+            string,
+            inputs,
+            context=self,
+            requirements=[],
+            outdir="",
+            tmpdir="",
+            resources={},
+        )
+    except (WorkflowException, JavascriptException):
+        if single:
+            # it is a CWL Expression in $() with no string interpolation
+            return "${return (" + stripped[2:-1] + "\n);}"
+        # then it is a string interpolation
+        return cast(
+            str,
+            interpolate(
+                scan=string,
+                rootvars=CWLParameterContext(
+                    inputs=inputs, self=self, runtime=runtime
+                ),
+                fullJS=True,
+                escaping_behavior=1,
+                convert_to_expression=True,
+            ),
         )
-        try:
-            do_eval(
-                string,
-                inputs,
-                context=self,
-                requirements=[],
-                outdir="",
-                tmpdir="",
-                resources={},
-            )
-        except (WorkflowException, JavascriptException):
-            if (
-                string[0:2] != "$("
-                or not string.endswith(")")
-                or len(string.split("$(")) > 2
-            ):
-                # then it is a string interpolation
-                return cast(
-                    str,
-                    interpolate(
-                        scan=string,
-                        rootvars=CWLParameterContext(
-                            inputs=inputs, self=self, runtime=runtime
-                        ),
-                        fullJS=True,
-                        escaping_behavior=2,
-                        convert_to_expression=True,
-                    ),
-                )
-            else:
-                # it is a CWL Expression in $() with no string interpolation
-                return "${return (" + string.strip()[2:-1] + "\n);}"
     return None
 
 
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 998e753..c31122e 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -21,7 +21,7 @@ import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_1 as cwl
 import cwl_utils.parser.cwl_v1_1_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
-from cwl_utils.expression import do_eval, interpolate
+from cwl_utils.expression import do_eval, interpolate, needs_parsing, scanner
 from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
@@ -111,51 +111,48 @@ def get_expression(
 
     CWL expressions in the $() form are converted to the ${} form.
     """
-    if not isinstance(string, str):
+    if not needs_parsing(string):
         return None
-    if string.strip().startswith("${"):
-        return string
-    if "$(" in string:
-        runtime = CWLRuntimeParameterContext(
-            cores=0,
-            ram=0,
-            outdir="/root",
-            tmpdir="/tmp",  # nosec
-            outdirSize=0,
-            tmpdirSize=0,
+    stripped = string.strip()
+    # Is it a single expression, without any text around it?
+    single = scanner(stripped) == (0, len(stripped))
+    if single and stripped.startswith("${"):
+        return stripped
+    runtime = CWLRuntimeParameterContext(
+        cores=0,
+        ram=0,
+        outdir="/root",
+        tmpdir="/tmp",  # nosec
+        outdirSize=0,
+        tmpdirSize=0,
+    )
+    try:
+        do_eval(
+            string,
+            inputs,
+            context=self,
+            requirements=[],
+            outdir="",
+            tmpdir="",
+            resources={},
+        )
+    except (WorkflowException, JavascriptException):
+        if single:
+            # it is a CWL Expression in $() with no string interpolation
+            return "${return (" + stripped[2:-1] + "\n);}"
+        # then it is a string interpolation
+        return cast(
+            str,
+            interpolate(
+                scan=string,
+                rootvars=CWLParameterContext(
+                    inputs=inputs, self=self, runtime=runtime
+                ),
+                fullJS=True,
+                escaping_behavior=1,
+                convert_to_expression=True,
+            ),
         )
-        try:
-            do_eval(
-                string,
-                inputs,
-                context=self,
-                requirements=[],
-                outdir="",
-                tmpdir="",
-                resources={},
-            )
-        except (WorkflowException, JavascriptException):
-            if (
-                string[0:2] != "$("
-                or not string.endswith(")")
-                or len(string.split("$(")) > 2
-            ):
-                # then it is a string interpolation
-                return cast(
-                    str,
-                    interpolate(
-                        scan=string,
-                        rootvars=CWLParameterContext(
-                            inputs=inputs, self=self, runtime=runtime
-                        ),
-                        fullJS=True,
-                        escaping_behavior=2,
-                        convert_to_expression=True,
-                    ),
-                )
-            else:
-                # it is a CWL Expression in $() with no string interpolation
-                return "${return (" + string.strip()[2:-1] + "\n);}"
     return None
 
 
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 34249ad..96bbf9e 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -21,7 +21,7 @@ import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_2 as cwl
 import cwl_utils.parser.cwl_v1_2_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
-from cwl_utils.expression import do_eval, interpolate
+from cwl_utils.expression import do_eval, interpolate, needs_parsing, scanner
 from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
@@ -110,51 +110,48 @@ def get_expression(
 
     CWL expressions in the $() form are converted to the ${} form.
     """
-    if not isinstance(string, str):
+    if not needs_parsing(string):
         return None
-    if string.strip().startswith("${"):
-        return string
-    if "$(" in string:
-        runtime = CWLRuntimeParameterContext(
-            cores=0,
-            ram=0,
-            outdir="/root",
-            tmpdir="/tmp",  # nosec
-            outdirSize=0,
-            tmpdirSize=0,
+    stripped = string.strip()
+    # Is it a single expression, without any text around it?
+    single = scanner(stripped) == (0, len(stripped))
+    if single and stripped.startswith("${"):
+        return stripped
+    runtime = CWLRuntimeParameterContext(
+        cores=0,
+        ram=0,
+        outdir="/root",
+        tmpdir="/tmp",  # nosec
+        outdirSize=0,
+        tmpdirSize=0,
+    )
+    try:
+        do_eval(
+            string,
+            inputs,
+            context=self,
+            requirements=[],
+            outdir="",
+            tmpdir="",
+            resources={},
+        )
+    except (WorkflowException, JavascriptException):
+        if single:
+            # it is a CWL Expression in $() with no string interpolation
+            return "${return (" + stripped[2:-1] + "\n);}"
+        # then it is a string interpolation
+        return cast(
+            str,
+            interpolate(
+                scan=string,
+                rootvars=CWLParameterContext(
+                    inputs=inputs, self=self, runtime=runtime
+                ),
+                fullJS=True,
+                escaping_behavior=2,
+                convert_to_expression=True,
+            ),
         )
-        try:
-            do_eval(
-                string,
-                inputs,
-                context=self,
-                requirements=[],
-                outdir="",
-                tmpdir="",
-                resources={},
-            )
-        except (WorkflowException, JavascriptException):
-            if (
-                string[0:2] != "$("
-                or not string.endswith(")")
-                or len(string.split("$(")) > 2
-            ):
-                # then it is a string interpolation
-                return cast(
-                    str,
-                    interpolate(
-                        scan=string,
-                        rootvars=CWLParameterContext(
-                            inputs=inputs, self=self, runtime=runtime
-                        ),
-                        fullJS=True,
-                        escaping_behavior=2,
-                        convert_to_expression=True,
-                    ),
-                )
-            else:
-                # it is a CWL Expression in $() with no string interpolation
-                return "${return (" + string.strip()[2:-1] + "\n);}"
     return None
 
 
diff --git a/src/cwl_utils/expression.py b/src/cwl_utils/expression.py
index 0b74a44..f377ccf 100644
--- a/src/cwl_utils/expression.py
+++ b/src/cwl_utils/expression.py
@@ -217,7 +217,7 @@ def interpolate(
     w = scanner(scan)
     while w:
         if convert_to_expression:
-            parts.append(f'"{scan[0: w[0]]}" + ')  # noqa: B907
+            parts.append(dump(scan[0 : w[0]]))
         else:
             parts.append(scan[0 : w[0]])
 
@@ -235,9 +235,14 @@ def interpolate(
                     leaf = json.loads(leaf)
                 parts.append(leaf)
             else:
+                code = scan[w[0] : w[1]][2:-1]
+                if scan[w[0] + 1] == "(":
+                    code = f"({code}\n)"
+                else:
+                    code = "function(){" + code + "\n}()"
                 parts.append(
                     "function(){var item ="
-                    + scan[w[0] : w[1]][2:-1]
+                    + code
                     + '; if (typeof(item) === "string"){ return item; } '
                     "else { return JSON.stringify(item); }}() + "
                 )
@@ -266,7 +271,7 @@ def interpolate(
         scan = scan[w[1] :]
         w = scanner(scan)
     if convert_to_expression:
-        parts.extend((f'"{scan}"', ";}"))  # noqa: B907
+        parts.extend((json_dumps(scan), ";}"))
     else:
         parts.append(scan)
     return "".join(parts)
-- 
2.43.0


From 75cd849b0f9527b1723d76e9ffa9a044d93d6868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 081/121] fix: an ExpressionTool keeps its expression when it
 becomes a CommandLineTool

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 33 +++++++++++--------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 33 +++++++++++--------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 33 +++++++++++--------
 3 files changed, 57 insertions(+), 42 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 7b11ae1..5644667 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -58,7 +58,9 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
 
 def escape_expression_field(contents: str) -> str:
     """Escape sequences similar to CWL expressions or param references."""
-    return contents.replace("${", "$/{").replace("$(", "$/(")
+    return (
+        contents.replace("\\", "\\\\").replace("${", "\\${").replace("$(", "\\$(")
+    )
 
 
 def clean_type_ids(
@@ -192,13 +194,19 @@ def etool_to_cltool(
         )
     contents = """"use strict";
 var inputs=$(inputs);
-var runtime=$(runtime);"""
+var runtime=$(runtime);
+var self=null;"""
+    if expressionLib is None:
+        expressionLib = cwl_utils.expression_refactor.find_expressionLib([etool])
     if expressionLib:
-        contents += "\n" + "\n".join(expressionLib)
+        contents += "\n" + escape_expression_field("\n".join(expressionLib))
+    expression = (
+        get_expression(etool.expression, empty_inputs(etool), None) or etool.expression
+    )
     contents += (
         """
 var ret = function(){"""
-        + escape_expression_field(etool.expression.strip()[2:-1])
+        + escape_expression_field(expression.strip()[2:-1])
         + """}();
 process.stdout.write(JSON.stringify(ret));"""
     )
@@ -303,15 +311,7 @@ def traverse(
             else:
                 return process, False
         case cwl.ExpressionTool() if replace_etool:
-            expression = get_expression(process.expression, empty_inputs(process), None)
-            # Why call get_expression on an ExpressionTool?
-            # It normalizes the form of $() CWL expressions into the ${} style
-            if expression:
-                process2 = copy.deepcopy(process)
-                process2.expression = expression
-            else:
-                process2 = process
-            return etool_to_cltool(process2), True
+            return etool_to_cltool(process), True
         case cwl.Workflow():
             return traverse_workflow(
                 process, replace_etool, skip_command_line1, skip_command_line2
@@ -2061,7 +2061,12 @@ def traverse_workflow(
     modified = False
     for index, step in enumerate(workflow.steps):
         if isinstance(step.run, cwl.ExpressionTool) and replace_etool:
-            workflow.steps[index].run = etool_to_cltool(step.run)
+            workflow.steps[index].run = etool_to_cltool(
+                step.run,
+                cwl_utils.expression_refactor.find_expressionLib(
+                    [workflow, step, step.run]
+                ),
+            )
             modified = True
         else:
             step_modified = cwl_utils.expression_refactor.load_step(
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index c31122e..5f842fa 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -65,7 +65,9 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
 
 def escape_expression_field(contents: str) -> str:
     """Escape sequences similar to CWL expressions or param references."""
-    return contents.replace("${", "$/{").replace("$(", "$/(")
+    return (
+        contents.replace("\\", "\\\\").replace("${", "\\${").replace("$(", "\\$(")
+    )
 
 
 def clean_type_ids(
@@ -199,13 +201,19 @@ def etool_to_cltool(
         )
     contents = """"use strict";
 var inputs=$(inputs);
-var runtime=$(runtime);"""
+var runtime=$(runtime);
+var self=null;"""
+    if expressionLib is None:
+        expressionLib = cwl_utils.expression_refactor.find_expressionLib([etool])
     if expressionLib:
-        contents += "\n" + "\n".join(expressionLib)
+        contents += "\n" + escape_expression_field("\n".join(expressionLib))
+    expression = (
+        get_expression(etool.expression, empty_inputs(etool), None) or etool.expression
+    )
     contents += (
         """
 var ret = function(){"""
-        + escape_expression_field(etool.expression.strip()[2:-1])
+        + escape_expression_field(expression.strip()[2:-1])
         + """}();
 process.stdout.write(JSON.stringify(ret));"""
     )
@@ -310,15 +318,7 @@ def traverse(
             else:
                 return process, False
         case cwl.ExpressionTool() if replace_etool:
-            expression = get_expression(process.expression, empty_inputs(process), None)
-            # Why call get_expression on an ExpressionTool?
-            # It normalizes the form of $() CWL expressions into the ${} style
-            if expression:
-                process2 = copy.deepcopy(process)
-                process2.expression = expression
-            else:
-                process2 = process
-            return etool_to_cltool(process2), True
+            return etool_to_cltool(process), True
         case cwl.Workflow():
             return traverse_workflow(
                 process, replace_etool, skip_command_line1, skip_command_line2
@@ -2072,7 +2072,12 @@ def traverse_workflow(
     modified = False
     for index, step in enumerate(workflow.steps):
         if isinstance(step.run, cwl.ExpressionTool) and replace_etool:
-            workflow.steps[index].run = etool_to_cltool(step.run)
+            workflow.steps[index].run = etool_to_cltool(
+                step.run,
+                cwl_utils.expression_refactor.find_expressionLib(
+                    [workflow, step, step.run]
+                ),
+            )
             modified = True
         else:
             step_modified = cwl_utils.expression_refactor.load_step(
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 96bbf9e..4162b40 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -64,7 +64,9 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
 
 def escape_expression_field(contents: str) -> str:
     """Escape sequences similar to CWL expressions or param references."""
-    return contents.replace("${", "$/{").replace("$(", "$/(")
+    return (
+        contents.replace("\\", "\\\\").replace("${", "\\${").replace("$(", "\\$(")
+    )
 
 
 def clean_type_ids(
@@ -198,13 +200,19 @@ def etool_to_cltool(
         )
     contents = """"use strict";
 var inputs=$(inputs);
-var runtime=$(runtime);"""
+var runtime=$(runtime);
+var self=null;"""
+    if expressionLib is None:
+        expressionLib = cwl_utils.expression_refactor.find_expressionLib([etool])
     if expressionLib:
-        contents += "\n" + "\n".join(expressionLib)
+        contents += "\n" + escape_expression_field("\n".join(expressionLib))
+    expression = (
+        get_expression(etool.expression, empty_inputs(etool), None) or etool.expression
+    )
     contents += (
         """
 var ret = function(){"""
-        + escape_expression_field(etool.expression.strip()[2:-1])
+        + escape_expression_field(expression.strip()[2:-1])
         + """}();
 process.stdout.write(JSON.stringify(ret));"""
     )
@@ -311,15 +319,7 @@ def traverse(
             else:
                 return process, False
         case cwl.ExpressionTool() if replace_etool:
-            expression = get_expression(process.expression, empty_inputs(process), None)
-            # Why call get_expression on an ExpressionTool?
-            # It normalizes the form of $() CWL expressions into the ${} style
-            if expression:
-                process2 = copy.deepcopy(process)
-                process2.expression = expression
-            else:
-                process2 = process
-            return etool_to_cltool(process2), True
+            return etool_to_cltool(process), True
         case cwl.Workflow():
             return traverse_workflow(
                 process, replace_etool, skip_command_line1, skip_command_line2
@@ -2270,7 +2270,12 @@ def traverse_workflow(
     modified = False
     for index, step in enumerate(workflow.steps):
         if isinstance(step.run, cwl.ExpressionTool) and replace_etool:
-            workflow.steps[index].run = etool_to_cltool(step.run)
+            workflow.steps[index].run = etool_to_cltool(
+                step.run,
+                cwl_utils.expression_refactor.find_expressionLib(
+                    [workflow, step, step.run]
+                ),
+            )
             modified = True
         else:
             step_modified = cwl_utils.expression_refactor.load_step(
-- 
2.43.0


From ec234529c8c827713e4033a79b3364e40c93f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:22 +0000
Subject: [PATCH 082/121] fix: expressions in InitialWorkDirRequirement of a
 tool can be refactored

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 152 ++++++------------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 152 ++++++------------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 152 ++++++------------
 3 files changed, 150 insertions(+), 306 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 5644667..b22324a 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -777,7 +777,7 @@ def process_workflow_reqs_and_hints(
                                     None,
                                     replace_etool,
                                 )
-                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index}"
+                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index})"
                                 generated_iwdr_reqs.append((etool_id, index))
                             elif isinstance(entry, cwl.Dirent):
                                 if entry.entry:
@@ -809,7 +809,7 @@ def process_workflow_reqs_and_hints(
                                                 replace_etool,
                                             )
                                             iwdr.listing[index] = (
-                                                "$(inputs._iwdr_listing_{}".format(
+                                                "$(inputs._iwdr_listing_{})".format(
                                                     index
                                                 )
                                             )
@@ -850,7 +850,7 @@ def process_workflow_reqs_and_hints(
                                             replace_etool,
                                         )
                                         iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
+                                            f"$(inputs._iwdr_listing_{index})"
                                         )
                                         generated_iwdr_reqs.append((etool_id, index))
 
@@ -876,7 +876,7 @@ def process_workflow_reqs_and_hints(
                                             replace_etool,
                                         )
                                         iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
+                                            f"$(inputs._iwdr_listing_{index})"
                                         )
                                         generated_iwdr_reqs.append((etool_id, index))
                         if generated_iwdr_reqs:
@@ -1044,25 +1044,23 @@ def process_level_reqs(
                 expression = get_expression(req.listing, inputs, None)
                 if expression:
                     modified = True
-                    target_type = cwl.InputArraySchema(
-                        ["File", "Directory"], "array", None, None
-                    )
+                    target_type = ["null", "Any"]
                     target = cwl.InputParameter(id=None, type_=target_type)
                     etool_id = "_expression_{}_InitialWorkDirRequirement".format(
                         step_name
                     )
-                    replace_expr_with_etool(
+                    replace_clt_hintreq_expr_with_etool(
                         expression,
                         etool_id,
                         parent,
                         target,
-                        None,
+                        step,
                         replace_etool,
-                        process,
-                    )
-                    target_process.requirements[req_index].listing = (
-                        "$(inputs._iwdr_listing)",
+                        process=process,
                     )
+                    target_process.requirements[
+                        req_index
+                    ].listing = "$(inputs._iwdr_listing)"
                     step.in_.append(
                         cwl.WorkflowStepInput(
                             id="_iwdr_listing",
@@ -1081,9 +1079,7 @@ def process_level_reqs(
                     expression = get_expression(entry, inputs, None)
                     if expression:
                         modified = True
-                        target_type = cwl.InputArraySchema(
-                            ["File", "Directory"], "array", None, None
-                        )
+                        target_type = ["null", "Any"]
                         target = cwl.InputParameter(
                             id=None,
                             type_=target_type,
@@ -1091,107 +1087,59 @@ def process_level_reqs(
                         etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                             step_name, listing_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
-                            process,
+                            process=process,
                         )
                         target_process.requirements[req_index].listing[
                             listing_index
-                        ] = f"$(inputs._iwdr_listing_{listing_index}"
+                        ] = f"$(inputs._iwdr_listing_{listing_index})"
                         generated_iwdr_reqs.append(
                             (etool_id, listing_index, target_type)
                         )
                     elif isinstance(entry, cwl.Dirent):
-                        if entry.entry:
-                            expression = get_expression(entry.entry, inputs, None)
-                            if expression:
-                                modified = True
-                                if entry.entryname is not None:
-                                    entryname_expr = get_expression(
-                                        entry.entryname, inputs, None
-                                    )
-                                    entryname = (
-                                        entry.entryname
-                                        if entryname_expr
-                                        else f'"{entry.entryname}"'  # noqa: B907
-                                    )
-                                    new_expression = (
-                                        "${var result; var entryname = "
-                                        + entryname
-                                        + "; var entry = "
-                                        + entry.entry[2:-1]
-                                        + """;
-if (typeof entry === 'string' || entry instanceof String) {
-result = {"class": "File", "basename": entryname, "contents": entry} ;
-if (typeof entryname === 'string' || entryname instanceof String) {
-result.basename = entryname ;
-}
-} else {
-result = entry ;
-}
-return result; }"""
-                                    )
-                                else:
-                                    new_expression = expression
-                                d_target_type = ["File", "Directory"]
-                                target = cwl.InputParameter(
-                                    id=None,
-                                    type_=d_target_type,
-                                )
-                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
-                                    step_name, listing_index
-                                )
-
-                                replace_clt_hintreq_expr_with_etool(
-                                    new_expression,
-                                    etool_id,
-                                    parent,
-                                    target,
-                                    step,
-                                    replace_etool,
-                                    process=process,
-                                )
-                                target_process.requirements[req_index].listing[
-                                    listing_index
-                                ].entry = "$(inputs._iwdr_listing_{})".format(
-                                    listing_index
-                                )
-                                generated_iwdr_reqs.append(
-                                    (etool_id, listing_index, d_target_type)
-                                )
-                        elif entry.entryname:
-                            expression = get_expression(entry.entryname, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.InputParameter(
-                                    id=None,
-                                    type_="string",
-                                )
-                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
-                                    step_name, listing_index
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    parent,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                    process,
+                        for attr, suffix, attr_type in (
+                            ("entry", "", ["null", "Any"]),
+                            ("entryname", "_entryname", "string"),
+                        ):
+                            expression = get_expression(
+                                getattr(entry, attr), inputs, None
+                            )
+                            if not expression:
+                                continue
+                            modified = True
+                            target = cwl.InputParameter(
+                                id=None,
+                                type_=attr_type,
+                            )
+                            name = f"{listing_index}{suffix}"
+                            etool_id = (
+                                "_expression_{}_InitialWorkDirRequirement_{}".format(
+                                    step_name, name
                                 )
+                            )
+                            replace_clt_hintreq_expr_with_etool(
+                                expression,
+                                etool_id,
+                                parent,
+                                target,
+                                step,
+                                replace_etool,
+                                process=process,
+                            )
+                            setattr(
                                 target_process.requirements[req_index].listing[
                                     listing_index
-                                ].entryname = "$(inputs._iwdr_listing_{})".format(
-                                    listing_index
-                                )
-                                generated_iwdr_reqs.append(
-                                    (etool_id, listing_index, "string")
-                                )
+                                ],
+                                attr,
+                                f"$(inputs._iwdr_listing_{name})",
+                            )
+                            generated_iwdr_reqs.append((etool_id, name, attr_type))
     for entry in generated_envVar_reqs:
         name = f"_envDef{entry[1]}"
         step.in_.append(cwl.WorkflowStepInput(id=name, source=f"{entry[0]}/result"))
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 5f842fa..7cccfe2 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -786,7 +786,7 @@ def process_workflow_reqs_and_hints(
                                     None,
                                     replace_etool,
                                 )
-                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index}"
+                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index})"
                                 generated_iwdr_reqs.append((etool_id, index))
                             elif isinstance(entry, cwl.Dirent):
                                 if entry.entry:
@@ -818,7 +818,7 @@ def process_workflow_reqs_and_hints(
                                                 replace_etool,
                                             )
                                             iwdr.listing[index] = (
-                                                "$(inputs._iwdr_listing_{}".format(
+                                                "$(inputs._iwdr_listing_{})".format(
                                                     index
                                                 )
                                             )
@@ -859,7 +859,7 @@ def process_workflow_reqs_and_hints(
                                             replace_etool,
                                         )
                                         iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
+                                            f"$(inputs._iwdr_listing_{index})"
                                         )
                                         generated_iwdr_reqs.append((etool_id, index))
 
@@ -885,7 +885,7 @@ def process_workflow_reqs_and_hints(
                                             replace_etool,
                                         )
                                         iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
+                                            f"$(inputs._iwdr_listing_{index})"
                                         )
                                         generated_iwdr_reqs.append((etool_id, index))
                         if generated_iwdr_reqs:
@@ -1053,25 +1053,23 @@ def process_level_reqs(
                 expression = get_expression(req.listing, inputs, None)
                 if expression:
                     modified = True
-                    target_type = cwl.InputArraySchema(
-                        ["File", "Directory"], "array", None, None
-                    )
+                    target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     etool_id = "_expression_{}_InitialWorkDirRequirement".format(
                         step_name
                     )
-                    replace_expr_with_etool(
+                    replace_clt_hintreq_expr_with_etool(
                         expression,
                         etool_id,
                         parent,
                         target,
-                        None,
+                        step,
                         replace_etool,
-                        process,
-                    )
-                    target_process.requirements[req_index].listing = (
-                        "$(inputs._iwdr_listing)",
+                        process=process,
                     )
+                    target_process.requirements[
+                        req_index
+                    ].listing = "$(inputs._iwdr_listing)"
                     step.in_.append(
                         cwl.WorkflowStepInput(
                             id="_iwdr_listing",
@@ -1090,9 +1088,7 @@ def process_level_reqs(
                     expression = get_expression(entry, inputs, None)
                     if expression:
                         modified = True
-                        target_type = cwl.InputArraySchema(
-                            ["File", "Directory"], "array", None, None
-                        )
+                        target_type = ["null", "Any"]
                         target = cwl.WorkflowInputParameter(
                             id=None,
                             type_=target_type,
@@ -1100,107 +1096,59 @@ def process_level_reqs(
                         etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                             step_name, listing_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
-                            process,
+                            process=process,
                         )
                         target_process.requirements[req_index].listing[
                             listing_index
-                        ] = f"$(inputs._iwdr_listing_{listing_index}"
+                        ] = f"$(inputs._iwdr_listing_{listing_index})"
                         generated_iwdr_reqs.append(
                             (etool_id, listing_index, target_type)
                         )
                     elif isinstance(entry, cwl.Dirent):
-                        if entry.entry:
-                            expression = get_expression(entry.entry, inputs, None)
-                            if expression:
-                                modified = True
-                                if entry.entryname is not None:
-                                    entryname_expr = get_expression(
-                                        entry.entryname, inputs, None
-                                    )
-                                    entryname = (
-                                        entry.entryname
-                                        if entryname_expr
-                                        else f'"{entry.entryname}"'  # noqa: B907
-                                    )
-                                    new_expression = (
-                                        "${var result; var entryname = "
-                                        + entryname
-                                        + "; var entry = "
-                                        + entry.entry[2:-1]
-                                        + """;
-if (typeof entry === 'string' || entry instanceof String) {
-result = {"class": "File", "basename": entryname, "contents": entry} ;
-if (typeof entryname === 'string' || entryname instanceof String) {
-result.basename = entryname ;
-}
-} else {
-result = entry ;
-}
-return result; }"""
-                                    )
-                                else:
-                                    new_expression = expression
-                                d_target_type = ["File", "Directory"]
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_=d_target_type,
-                                )
-                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
-                                    step_name, listing_index
-                                )
-
-                                replace_clt_hintreq_expr_with_etool(
-                                    new_expression,
-                                    etool_id,
-                                    parent,
-                                    target,
-                                    step,
-                                    replace_etool,
-                                    process=process,
-                                )
-                                target_process.requirements[req_index].listing[
-                                    listing_index
-                                ].entry = "$(inputs._iwdr_listing_{})".format(
-                                    listing_index
-                                )
-                                generated_iwdr_reqs.append(
-                                    (etool_id, listing_index, d_target_type)
-                                )
-                        elif entry.entryname:
-                            expression = get_expression(entry.entryname, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_="string",
-                                )
-                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
-                                    step_name, listing_index
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    parent,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                    process,
+                        for attr, suffix, attr_type in (
+                            ("entry", "", ["null", "Any"]),
+                            ("entryname", "_entryname", "string"),
+                        ):
+                            expression = get_expression(
+                                getattr(entry, attr), inputs, None
+                            )
+                            if not expression:
+                                continue
+                            modified = True
+                            target = cwl.WorkflowInputParameter(
+                                id=None,
+                                type_=attr_type,
+                            )
+                            name = f"{listing_index}{suffix}"
+                            etool_id = (
+                                "_expression_{}_InitialWorkDirRequirement_{}".format(
+                                    step_name, name
                                 )
+                            )
+                            replace_clt_hintreq_expr_with_etool(
+                                expression,
+                                etool_id,
+                                parent,
+                                target,
+                                step,
+                                replace_etool,
+                                process=process,
+                            )
+                            setattr(
                                 target_process.requirements[req_index].listing[
                                     listing_index
-                                ].entryname = "$(inputs._iwdr_listing_{})".format(
-                                    listing_index
-                                )
-                                generated_iwdr_reqs.append(
-                                    (etool_id, listing_index, "string")
-                                )
+                                ],
+                                attr,
+                                f"$(inputs._iwdr_listing_{name})",
+                            )
+                            generated_iwdr_reqs.append((etool_id, name, attr_type))
     for entry in generated_envVar_reqs:
         name = f"_envDef{entry[1]}"
         step.in_.append(cwl.WorkflowStepInput(id=name, source=f"{entry[0]}/result"))
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 4162b40..d8e7cce 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -894,7 +894,7 @@ def process_workflow_reqs_and_hints(
                                     None,
                                     replace_etool,
                                 )
-                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index}"
+                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index})"
                                 generated_iwdr_reqs.append((etool_id, index))
                             elif isinstance(entry, cwl.Dirent):
                                 if entry.entry:
@@ -933,7 +933,7 @@ def process_workflow_reqs_and_hints(
                                                 replace_etool,
                                             )
                                             iwdr.listing[index] = (
-                                                "$(inputs._iwdr_listing_{}".format(
+                                                "$(inputs._iwdr_listing_{})".format(
                                                     index
                                                 )
                                             )
@@ -974,7 +974,7 @@ def process_workflow_reqs_and_hints(
                                             replace_etool,
                                         )
                                         iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
+                                            f"$(inputs._iwdr_listing_{index})"
                                         )
                                         generated_iwdr_reqs.append((etool_id, index))
 
@@ -1000,7 +1000,7 @@ def process_workflow_reqs_and_hints(
                                             replace_etool,
                                         )
                                         iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
+                                            f"$(inputs._iwdr_listing_{index})"
                                         )
                                         generated_iwdr_reqs.append((etool_id, index))
                         if generated_iwdr_reqs:
@@ -1168,25 +1168,23 @@ def process_level_reqs(
                 expression = get_expression(req.listing, inputs, None)
                 if expression:
                     modified = True
-                    target_type = cwl.InputArraySchema(
-                        ["File", "Directory"], "array", None, None
-                    )
+                    target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     etool_id = "_expression_{}_InitialWorkDirRequirement".format(
                         step_name
                     )
-                    replace_expr_with_etool(
+                    replace_clt_hintreq_expr_with_etool(
                         expression,
                         etool_id,
                         parent,
                         target,
-                        None,
+                        step,
                         replace_etool,
-                        process,
-                    )
-                    target_process.requirements[req_index].listing = (
-                        "$(inputs._iwdr_listing)",
+                        process=process,
                     )
+                    target_process.requirements[
+                        req_index
+                    ].listing = "$(inputs._iwdr_listing)"
                     step.in_.append(
                         cwl.WorkflowStepInput(
                             id="_iwdr_listing",
@@ -1205,9 +1203,7 @@ def process_level_reqs(
                     expression = get_expression(entry, inputs, None)
                     if expression:
                         modified = True
-                        target_type = cwl.InputArraySchema(
-                            ["File", "Directory"], "array", None, None
-                        )
+                        target_type = ["null", "Any"]
                         target = cwl.WorkflowInputParameter(
                             id=None,
                             type_=target_type,
@@ -1215,107 +1211,59 @@ def process_level_reqs(
                         etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                             step_name, listing_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
-                            process,
+                            process=process,
                         )
                         target_process.requirements[req_index].listing[
                             listing_index
-                        ] = f"$(inputs._iwdr_listing_{listing_index}"
+                        ] = f"$(inputs._iwdr_listing_{listing_index})"
                         generated_iwdr_reqs.append(
                             (etool_id, listing_index, target_type)
                         )
                     elif isinstance(entry, cwl.Dirent):
-                        if entry.entry:
-                            expression = get_expression(entry.entry, inputs, None)
-                            if expression:
-                                modified = True
-                                if entry.entryname is not None:
-                                    entryname_expr = get_expression(
-                                        entry.entryname, inputs, None
-                                    )
-                                    entryname = (
-                                        entry.entryname
-                                        if entryname_expr
-                                        else f'"{entry.entryname}"'  # noqa: B907
-                                    )
-                                    new_expression = (
-                                        "${var result; var entryname = "
-                                        + entryname
-                                        + "; var entry = "
-                                        + entry.entry[2:-1]
-                                        + """;
-if (typeof entry === 'string' || entry instanceof String) {
-result = {"class": "File", "basename": entryname, "contents": entry} ;
-if (typeof entryname === 'string' || entryname instanceof String) {
-result.basename = entryname ;
-}
-} else {
-result = entry ;
-}
-return result; }"""
-                                    )
-                                else:
-                                    new_expression = expression
-                                d_target_type = ["File", "Directory"]
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_=d_target_type,
-                                )
-                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
-                                    step_name, listing_index
-                                )
-
-                                replace_clt_hintreq_expr_with_etool(
-                                    new_expression,
-                                    etool_id,
-                                    parent,
-                                    target,
-                                    step,
-                                    replace_etool,
-                                    process=process,
-                                )
-                                target_process.requirements[req_index].listing[
-                                    listing_index
-                                ].entry = "$(inputs._iwdr_listing_{})".format(
-                                    listing_index
-                                )
-                                generated_iwdr_reqs.append(
-                                    (etool_id, listing_index, d_target_type)
-                                )
-                        elif entry.entryname:
-                            expression = get_expression(entry.entryname, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_="string",
-                                )
-                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
-                                    step_name, listing_index
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    parent,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                    process,
+                        for attr, suffix, attr_type in (
+                            ("entry", "", ["null", "Any"]),
+                            ("entryname", "_entryname", "string"),
+                        ):
+                            expression = get_expression(
+                                getattr(entry, attr), inputs, None
+                            )
+                            if not expression:
+                                continue
+                            modified = True
+                            target = cwl.WorkflowInputParameter(
+                                id=None,
+                                type_=attr_type,
+                            )
+                            name = f"{listing_index}{suffix}"
+                            etool_id = (
+                                "_expression_{}_InitialWorkDirRequirement_{}".format(
+                                    step_name, name
                                 )
+                            )
+                            replace_clt_hintreq_expr_with_etool(
+                                expression,
+                                etool_id,
+                                parent,
+                                target,
+                                step,
+                                replace_etool,
+                                process=process,
+                            )
+                            setattr(
                                 target_process.requirements[req_index].listing[
                                     listing_index
-                                ].entryname = "$(inputs._iwdr_listing_{})".format(
-                                    listing_index
-                                )
-                                generated_iwdr_reqs.append(
-                                    (etool_id, listing_index, "string")
-                                )
+                                ],
+                                attr,
+                                f"$(inputs._iwdr_listing_{name})",
+                            )
+                            generated_iwdr_reqs.append((etool_id, name, attr_type))
     for entry in generated_envVar_reqs:
         name = f"_envDef{entry[1]}"
         step.in_.append(cwl.WorkflowStepInput(id=name, source=f"{entry[0]}/result"))
-- 
2.43.0


From 806abff78928ebf96afb80253af0cbe6bcf147ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:55 +0000
Subject: [PATCH 083/121] fix: expressions of tool inputs and outputs are
 replaced in the refactored tool

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 276 ++++++++----------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 269 +++++++----------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 269 +++++++----------
 3 files changed, 330 insertions(+), 484 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index b22324a..f949873 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1199,7 +1199,7 @@ def traverse_CommandLineTool(
                     modified = True
                     inp_id = f"_arguments_{index}"
                     etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
+                    target_type = ["null", "Any"]
                     target = cwl.InputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
                         expression,
@@ -1228,16 +1228,13 @@ def traverse_CommandLineTool(
                             id=inp_id, source=f"{etool_id}/result"
                         )
                     )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
-                    )
-            elif isinstance(arg, cwl_utils.parser.CommandLineBinding) and arg.valueFrom:
+            elif isinstance(arg, cwl.CommandLineBinding) and arg.valueFrom:
                 expression = get_expression(arg.valueFrom, inputs, None)
                 if expression:
                     modified = True
                     inp_id = f"_arguments_{index}"
                     etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
+                    target_type = ["null", "Any"]
                     target = cwl.InputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
                         expression,
@@ -1261,9 +1258,6 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
-                    )
     for streamtype in "stdout", "stderr":  # add 'stdin' for v1.1 version
         stream_value = getattr(clt, streamtype)
         if stream_value:
@@ -1294,7 +1288,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for inp in clt.inputs:
+    for inp, target_inp in zip(clt.inputs, list(target_clt.inputs)):
         if not skip_command_line1 and inp.inputBinding and inp.inputBinding.valueFrom:
             expression = get_expression(
                 inp.inputBinding.valueFrom, inputs, example_input(inp.type_)
@@ -1304,26 +1298,36 @@ def traverse_CommandLineTool(
                 self_id = inp.id.split("#")[-1].split("/")[-1]
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
+                # the value can be of another type than the input, which has no
+                # inputBinding to evaluate when it is null
+                value_type = ["null", "Any"]
+                expression = (
+                    "${if (self === null) { return null; } " + expression.strip()[2:]
+                )
+                target = cwl.InputParameter(id=None, type_=value_type)
                 replace_step_clt_expr_with_etool(
                     expression,
                     etool_id,
                     parent,
-                    inp,
+                    target,
                     step,
                     replace_etool,
                     self_id,
                     process=clt,
                 )
-                inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
+                target_inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
                 target_clt.inputs.append(
                     cwl_utils.expression_refactor.get_command_input_parameter(
-                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, inp.type_
+                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
+                        inp_id,
+                        value_type,
                     )
                 )
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for outp in clt.outputs:
+    output_evals: list[tuple[cwl_utils.parser.CommandOutputParameter, str]] = []
+    for outp, target_outp in zip(clt.outputs, list(target_clt.outputs)):
         if outp.outputBinding:
             if outp.outputBinding.glob:
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
@@ -1347,7 +1351,7 @@ def traverse_CommandLineTool(
                         replace_etool,
                         process=clt,
                     )
-                    outp.outputBinding.glob = f"$(inputs.{inp_id})"
+                    target_outp.outputBinding.glob = f"$(inputs.{inp_id})"
                     target_clt.inputs.append(
                         cwl_utils.expression_refactor.get_command_input_parameter(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
@@ -1374,156 +1378,104 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
                     modified = True
-                    outp_id = outp.id.split("#")[-1].split("/")[-1]
-                    inp_id = f"_{outp_id}_outputEval"
-                    etool_id = f"expression{inp_id}"
-                    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
-                        step, etool_id, outp_id
-                    )
-                    self_type = cwl.InputParameter(
-                        id=None,
-                        type_=cwl.InputArraySchema("File", "array", None, None),
-                    )
-                    etool = generate_etool_from_expr(
-                        expression, outp, False, self_type, [parent, step, clt]
-                    )
-                    if outp.outputBinding.loadContents:
-                        etool.inputs[0].type_.inputBinding = (
-                            cwl_utils.expression_refactor.get_command_line_binding(
-                                etool.cwlVersion or _DEFAULT_CWL_VERSION,
-                                loadContents=True,
-                            )
-                        )
-                    etool.inputs.extend(
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    sub_wf_inputs = (
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    orig_step_inputs = copy.deepcopy(step.in_)
-                    for orig_step_input in orig_step_inputs:
-                        orig_step_input.id = orig_step_input.id.split("/")[-1]
-                        if isinstance(orig_step_input.source, MutableSequence):
-                            for index, source in enumerate(orig_step_input.source):
-                                orig_step_input.source[index] = source.split("#")[-1]
-                        else:
-                            orig_step_input.source = orig_step_input.source.split("#")[
-                                -1
-                            ]
-                    orig_step_inputs[:] = [
-                        x for x in orig_step_inputs if not x.id.startswith("_")
-                    ]
-                    for inp in orig_step_inputs:
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    final_etool: (
-                        cwl_utils.parser.CommandLineTool
-                        | cwl_utils.parser.ExpressionTool
-                    )
-                    if replace_etool:
-                        final_etool = cwl_utils.expression_refactor.etool_to_cltool(
-                            etool,
-                            _DEFAULT_CWL_VERSION,
-                            cwl_utils.expression_refactor.find_expressionLib(
-                                [parent, step, clt]
-                            ),
-                        )
-                    else:
-                        final_etool = etool
-                    etool_step = cwl.WorkflowStep(
-                        id=etool_id,
-                        in_=orig_step_inputs,
-                        out=[cwl.WorkflowStepOutput("result")],
-                        run=final_etool,
-                        scatterMethod=step.scatterMethod,
-                    )
-                    new_clt_step = copy.copy(
-                        step
-                    )  # a deepcopy would be convenient, but params2.cwl gives it problems
-                    new_clt_step.id = new_clt_step.id.split("#")[-1]
-                    new_clt_step.run = copy.copy(step.run)
-                    new_clt_step.run.id = None
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        new_clt_step.run, skip_command_line1
-                    )
-                    cwl_utils.expression_refactor.process_CommandLineTool_output(
-                        new_clt_step.run, _DEFAULT_CWL_VERSION, outp_id
-                    )
-                    new_clt_step.in_ = copy.deepcopy(step.in_)
-                    for inp in new_clt_step.in_:
-                        inp.id = inp.id.split("/")[-1]
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    for index, out in enumerate(new_clt_step.out):
-                        new_clt_step.out[index] = out.split("/")[-1]
-                    for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
-                    for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
-                    sub_wf_steps = [new_clt_step, etool_step]
-                    sub_workflow = cwl.Workflow(
-                        inputs=sub_wf_inputs,
-                        outputs=sub_wf_outputs,
-                        steps=sub_wf_steps,
-                        cwlVersion=parent.cwlVersion,
-                    )
-                    if step.scatter:
-                        new_clt_step.scatter = None
-                    step.run = sub_workflow
-                    rename_step_source(
-                        sub_workflow,
-                        f"{step_id}/{outp_id}",
-                        f"{etool_id}/result",
-                    )
-                    orig_step_inputs.append(
-                        cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}")
-                    )
-                    if not parent.requirements:
-                        parent.requirements = [cwl.SubworkflowFeatureRequirement()]
-                    else:
-                        has_sub_wf_req = False
-                        for req in parent.requirements:
-                            if isinstance(req, cwl.SubworkflowFeatureRequirement):
-                                has_sub_wf_req = True
-                        if not has_sub_wf_req:
-                            parent.requirements.append(
-                                cwl.SubworkflowFeatureRequirement()
-                            )
+                    output_evals.append((outp, expression))
+    if output_evals:
+        extract_outputEvals(
+            output_evals, clt, parent, step, replace_etool, skip_command_line1
+        )
+    cwl_utils.expression_refactor.remove_JSReq(
+        target_clt, skip_command_line1 or skip_command_line2
+    )
     return modified
 
 
-def rename_step_source(workflow: cwl.Workflow, old: str, new: str) -> None:
-    """Update step source names to the new name."""
-
-    def simplify_wf_id(uri: str) -> str:
-        return uri.split("#")[-1].split("/", 1)[1]
-
-    def simplify_step_id(uri: str) -> str:
-        return uri.split("#")[-1]
-
-    for wf_outp in workflow.outputs:
-        if wf_outp.outputSource and simplify_wf_id(wf_outp.outputSource) == old:
-            wf_outp.outputSource = new
-    for step in workflow.steps:
-        if step.in_:
-            for inp in step.in_:
-                if inp.source:
-                    if isinstance(inp.source, str):
-                        source_id = (
-                            simplify_step_id(inp.source)
-                            if "#" in inp.source
-                            else inp.source
-                        )
-                        if source_id == old:
-                            inp.source = new
-                    else:
-                        for index, source in enumerate(inp.source):
-                            if simplify_step_id(source) == old:
-                                inp.source[index] = new
+def extract_outputEvals(
+    output_evals: list[tuple[cwl_utils.parser.CommandOutputParameter, str]],
+    clt: cwl_utils.parser.CommandLineTool,
+    parent: cwl.Workflow,
+    step: cwl.WorkflowStep,
+    replace_etool: bool,
+    skip_command_line1: bool,
+) -> None:
+    """Replace the run of a step by a workflow with a step for each outputEval."""
+    step_id = step.id.split("#")[-1].split("/")[-1]
+    target_clt = step.run
+    sub_wf_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
+        target_clt, _DEFAULT_CWL_VERSION
+    )
+    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(step, "", "")
+    clt_step = cwl.WorkflowStep(
+        id=step_id,
+        in_=[
+            cwl.WorkflowStepInput(id=inp.id, source=inp.id) for inp in sub_wf_inputs
+        ],
+        out=[outp.id for outp in sub_wf_outputs],
+        run=target_clt,
+    )
+    sub_wf_steps = [clt_step]
+    for outp, expression in output_evals:
+        outp_id = outp.id.split("#")[-1].split("/")[-1]
+        etool_id = f"expression_{outp_id}_outputEval"
+        self_type = cwl.InputParameter(
+            id=None,
+            type_=cwl.InputArraySchema(items="File", type_="array"),
+        )
+        etool = generate_etool_from_expr(
+            expression, outp, False, self_type, [parent, step, clt]
+        )
+        if outp.outputBinding.loadContents:
+            etool.inputs[0].type_.inputBinding = (
+                cwl_utils.expression_refactor.get_command_line_binding(
+                    etool.cwlVersion or _DEFAULT_CWL_VERSION,
+                    loadContents=True,
+                )
+            )
+        clt_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
+            clt, _DEFAULT_CWL_VERSION
+        )
+        etool.inputs.extend(clt_inputs)
+        final_etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
+        if replace_etool:
+            final_etool = cwl_utils.expression_refactor.etool_to_cltool(
+                etool,
+                _DEFAULT_CWL_VERSION,
+                cwl_utils.expression_refactor.find_expressionLib([parent, step, clt]),
+            )
+        else:
+            final_etool = etool
+        sub_wf_steps.append(
+            cwl.WorkflowStep(
+                id=etool_id,
+                in_=[
+                    cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}")
+                ]
+                + [
+                    cwl.WorkflowStepInput(id=inp.id, source=inp.id)
+                    for inp in clt_inputs
+                ],
+                out=[cwl.WorkflowStepOutput("result")],
+                run=final_etool,
+            )
+        )
+        for sub_wf_output in sub_wf_outputs:
+            if sub_wf_output.id == outp_id:
+                sub_wf_output.outputSource = f"{etool_id}/result"
+        cwl_utils.expression_refactor.process_CommandLineTool_output(
+            target_clt, _DEFAULT_CWL_VERSION, outp_id
+        )
+    step.run = cwl.Workflow(
+        inputs=sub_wf_inputs,
+        outputs=sub_wf_outputs,
+        steps=sub_wf_steps,
+        cwlVersion=parent.cwlVersion,
+    )
+    if not parent.requirements:
+        parent.requirements = [cwl.SubworkflowFeatureRequirement()]
+    elif not any(
+        isinstance(req, cwl.SubworkflowFeatureRequirement)
+        for req in parent.requirements
+    ):
+        parent.requirements.append(cwl.SubworkflowFeatureRequirement())
 
 
 def replace_step_clt_expr_with_etool(
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 7cccfe2..fb74fd4 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1208,7 +1208,7 @@ def traverse_CommandLineTool(
                     modified = True
                     inp_id = f"_arguments_{index}"
                     etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
+                    target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
                         expression,
@@ -1237,16 +1237,13 @@ def traverse_CommandLineTool(
                             id=inp_id, source=f"{etool_id}/result"
                         )
                     )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
-                    )
             elif isinstance(arg, cwl.CommandLineBinding) and arg.valueFrom:
                 expression = get_expression(arg.valueFrom, inputs, None)
                 if expression:
                     modified = True
                     inp_id = f"_arguments_{index}"
                     etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
+                    target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
                         expression,
@@ -1270,9 +1267,6 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
-                    )
     for streamtype in "stdout", "stderr":  # add 'stdin' for v1.1 version
         stream_value = getattr(clt, streamtype)
         if stream_value:
@@ -1303,7 +1297,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for inp in clt.inputs:
+    for inp, target_inp in zip(clt.inputs, list(target_clt.inputs)):
         if not skip_command_line1 and inp.inputBinding and inp.inputBinding.valueFrom:
             expression = get_expression(
                 inp.inputBinding.valueFrom, inputs, example_input(inp.type_)
@@ -1313,26 +1307,36 @@ def traverse_CommandLineTool(
                 self_id = inp.id.split("#")[-1].split("/")[-1]
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
+                # the value can be of another type than the input, which has no
+                # inputBinding to evaluate when it is null
+                value_type = ["null", "Any"]
+                expression = (
+                    "${if (self === null) { return null; } " + expression.strip()[2:]
+                )
+                target = cwl.WorkflowInputParameter(id=None, type_=value_type)
                 replace_step_clt_expr_with_etool(
                     expression,
                     etool_id,
                     parent,
-                    inp,
+                    target,
                     step,
                     replace_etool,
                     self_id,
                     process=clt,
                 )
-                inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
+                target_inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
                 target_clt.inputs.append(
                     cwl_utils.expression_refactor.get_command_input_parameter(
-                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, inp.type_
+                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
+                        inp_id,
+                        value_type,
                     )
                 )
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for outp in clt.outputs:
+    output_evals: list[tuple[cwl_utils.parser.CommandOutputParameter, str]] = []
+    for outp, target_outp in zip(clt.outputs, list(target_clt.outputs)):
         if outp.outputBinding:
             if outp.outputBinding.glob:
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
@@ -1356,7 +1360,7 @@ def traverse_CommandLineTool(
                         replace_etool,
                         process=clt,
                     )
-                    outp.outputBinding.glob = f"$(inputs.{inp_id})"
+                    target_outp.outputBinding.glob = f"$(inputs.{inp_id})"
                     target_clt.inputs.append(
                         cwl_utils.expression_refactor.get_command_input_parameter(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
@@ -1383,156 +1387,99 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
                     modified = True
-                    outp_id = outp.id.split("#")[-1].split("/")[-1]
-                    inp_id = f"_{outp_id}_outputEval"
-                    etool_id = f"expression{inp_id}"
-                    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
-                        step, etool_id, outp_id
-                    )
-                    self_type = cwl.WorkflowInputParameter(
-                        id=None,
-                        type_=cwl.InputArraySchema("File", "array", None, None),
-                    )
-                    etool = generate_etool_from_expr(
-                        expression, outp, False, self_type, [parent, step, clt]
-                    )
-                    if outp.outputBinding.loadContents:
-                        etool.inputs[0].type_.inputBinding = (
-                            cwl_utils.expression_refactor.get_command_line_binding(
-                                etool.cwlVersion or _DEFAULT_CWL_VERSION,
-                                loadContents=True,
-                            )
-                        )
-                    etool.inputs.extend(
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    sub_wf_inputs = (
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    orig_step_inputs = copy.deepcopy(step.in_)
-                    for orig_step_input in orig_step_inputs:
-                        orig_step_input.id = orig_step_input.id.split("/")[-1]
-                        if isinstance(orig_step_input.source, MutableSequence):
-                            for index, source in enumerate(orig_step_input.source):
-                                orig_step_input.source[index] = source.split("#")[-1]
-                        else:
-                            orig_step_input.source = orig_step_input.source.split("#")[
-                                -1
-                            ]
-                    orig_step_inputs[:] = [
-                        x for x in orig_step_inputs if not x.id.startswith("_")
-                    ]
-                    for inp in orig_step_inputs:
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    final_etool: (
-                        cwl_utils.parser.CommandLineTool
-                        | cwl_utils.parser.ExpressionTool
-                    )
-                    if replace_etool:
-                        final_etool = cwl_utils.expression_refactor.etool_to_cltool(
-                            etool,
-                            _DEFAULT_CWL_VERSION,
-                            cwl_utils.expression_refactor.find_expressionLib(
-                                [parent, step, clt]
-                            ),
-                        )
-                    else:
-                        final_etool = etool
-                    etool_step = cwl.WorkflowStep(
-                        id=etool_id,
-                        in_=orig_step_inputs,
-                        out=[cwl.WorkflowStepOutput("result")],
-                        run=final_etool,
-                        scatterMethod=step.scatterMethod,
-                    )
-                    new_clt_step = copy.copy(
-                        step
-                    )  # a deepcopy would be convenient, but params2.cwl gives it problems
-                    new_clt_step.id = new_clt_step.id.split("#")[-1]
-                    new_clt_step.run = copy.copy(step.run)
-                    new_clt_step.run.id = None
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        new_clt_step.run, skip_command_line1
-                    )
-                    cwl_utils.expression_refactor.process_CommandLineTool_output(
-                        new_clt_step.run, _DEFAULT_CWL_VERSION, outp_id
-                    )
-                    new_clt_step.in_ = copy.deepcopy(step.in_)
-                    for inp in new_clt_step.in_:
-                        inp.id = inp.id.split("/")[-1]
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    for index, out in enumerate(new_clt_step.out):
-                        new_clt_step.out[index] = out.split("/")[-1]
-                    for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
-                    for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
-                    sub_wf_steps = [new_clt_step, etool_step]
-                    sub_workflow = cwl.Workflow(
-                        inputs=sub_wf_inputs,
-                        outputs=sub_wf_outputs,
-                        steps=sub_wf_steps,
-                        cwlVersion=parent.cwlVersion,
-                    )
-                    if step.scatter:
-                        new_clt_step.scatter = None
-                    step.run = sub_workflow
-                    rename_step_source(
-                        sub_workflow,
-                        f"{step_id}/{outp_id}",
-                        f"{etool_id}/result",
-                    )
-                    orig_step_inputs.append(
-                        cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}")
-                    )
-                    if not parent.requirements:
-                        parent.requirements = [cwl.SubworkflowFeatureRequirement()]
-                    else:
-                        has_sub_wf_req = False
-                        for req in parent.requirements:
-                            if isinstance(req, cwl.SubworkflowFeatureRequirement):
-                                has_sub_wf_req = True
-                        if not has_sub_wf_req:
-                            parent.requirements.append(
-                                cwl.SubworkflowFeatureRequirement()
-                            )
+                    output_evals.append((outp, expression))
+    if output_evals:
+        extract_outputEvals(
+            output_evals, clt, parent, step, replace_etool, skip_command_line1
+        )
+    cwl_utils.expression_refactor.remove_JSReq(
+        target_clt, skip_command_line1 or skip_command_line2
+    )
     return modified
 
 
-def rename_step_source(workflow: cwl.Workflow, old: str, new: str) -> None:
-    """Update step source names to the new name."""
-
-    def simplify_wf_id(uri: str) -> str:
-        return uri.split("#")[-1].split("/", 1)[1]
-
-    def simplify_step_id(uri: str) -> str:
-        return uri.split("#")[-1]
-
-    for wf_outp in workflow.outputs:
-        if wf_outp.outputSource and simplify_wf_id(wf_outp.outputSource) == old:
-            wf_outp.outputSource = new
-    for step in workflow.steps:
-        if step.in_:
-            for inp in step.in_:
-                if inp.source:
-                    if isinstance(inp.source, str):
-                        source_id = (
-                            simplify_step_id(inp.source)
-                            if "#" in inp.source
-                            else inp.source
-                        )
-                        if source_id == old:
-                            inp.source = new
-                    else:
-                        for index, source in enumerate(inp.source):
-                            if simplify_step_id(source) == old:
-                                inp.source[index] = new
+def extract_outputEvals(
+    output_evals: list[tuple[cwl_utils.parser.CommandOutputParameter, str]],
+    clt: cwl_utils.parser.CommandLineTool,
+    parent: cwl.Workflow,
+    step: cwl.WorkflowStep,
+    replace_etool: bool,
+    skip_command_line1: bool,
+) -> None:
+    """Replace the run of a step by a workflow with a step for each outputEval."""
+    step_id = step.id.split("#")[-1].split("/")[-1]
+    target_clt = step.run
+    sub_wf_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
+        target_clt, _DEFAULT_CWL_VERSION
+    )
+    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(step, "", "")
+    clt_step = cwl.WorkflowStep(
+        id=step_id,
+        in_=[
+            cwl.WorkflowStepInput(id=inp.id, source=inp.id) for inp in sub_wf_inputs
+        ],
+        out=[outp.id for outp in sub_wf_outputs],
+        run=target_clt,
+    )
+    sub_wf_steps = [clt_step]
+    for outp, expression in output_evals:
+        outp_id = outp.id.split("#")[-1].split("/")[-1]
+        etool_id = f"expression_{outp_id}_outputEval"
+        self_type = cwl.WorkflowInputParameter(
+            id=None,
+            type_=cwl.InputArraySchema(items="File", type_="array"),
+        )
+        etool = generate_etool_from_expr(
+            expression, outp, False, self_type, [parent, step, clt]
+        )
+        if outp.outputBinding.loadContents:
+            etool.inputs[0].loadContents = True
+        clt_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
+            clt, _DEFAULT_CWL_VERSION
+        )
+        etool.inputs.extend(clt_inputs)
+        final_etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
+        if replace_etool:
+            final_etool = cwl_utils.expression_refactor.etool_to_cltool(
+                etool,
+                _DEFAULT_CWL_VERSION,
+                cwl_utils.expression_refactor.find_expressionLib([parent, step, clt]),
+            )
+        else:
+            final_etool = etool
+        sub_wf_steps.append(
+            cwl.WorkflowStep(
+                id=etool_id,
+                in_=[
+                    cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}")
+                ]
+                + [
+                    cwl.WorkflowStepInput(id=inp.id, source=inp.id)
+                    for inp in clt_inputs
+                ],
+                out=[cwl.WorkflowStepOutput("result")],
+                run=final_etool,
+            )
+        )
+        for sub_wf_output in sub_wf_outputs:
+            if sub_wf_output.id == outp_id:
+                sub_wf_output.outputSource = f"{etool_id}/result"
+        cwl_utils.expression_refactor.process_CommandLineTool_output(
+            target_clt, _DEFAULT_CWL_VERSION, outp_id
+        )
+    step.run = cwl.Workflow(
+        inputs=sub_wf_inputs,
+        outputs=sub_wf_outputs,
+        steps=sub_wf_steps,
+        cwlVersion=parent.cwlVersion,
+    )
+    if not parent.requirements:
+        parent.requirements = [cwl.SubworkflowFeatureRequirement()]
+    elif not any(
+        isinstance(req, cwl.SubworkflowFeatureRequirement)
+        for req in parent.requirements
+    ):
+        parent.requirements.append(cwl.SubworkflowFeatureRequirement())
 
 
 def replace_step_clt_expr_with_etool(
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index d8e7cce..e1da58a 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1323,7 +1323,7 @@ def traverse_CommandLineTool(
                     modified = True
                     inp_id = f"_arguments_{index}"
                     etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
+                    target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
                         expression,
@@ -1352,16 +1352,13 @@ def traverse_CommandLineTool(
                             id=inp_id, source=f"{etool_id}/result"
                         )
                     )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
-                    )
             elif isinstance(arg, cwl.CommandLineBinding) and arg.valueFrom:
                 expression = get_expression(arg.valueFrom, inputs, None)
                 if expression:
                     modified = True
                     inp_id = f"_arguments_{index}"
                     etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
+                    target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
                         expression,
@@ -1385,9 +1382,6 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
-                    )
     for streamtype in "stdout", "stderr":  # add 'stdin' for v1.1 version
         stream_value = getattr(clt, streamtype)
         if stream_value:
@@ -1418,7 +1412,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for inp in clt.inputs:
+    for inp, target_inp in zip(clt.inputs, list(target_clt.inputs)):
         if not skip_command_line1 and inp.inputBinding and inp.inputBinding.valueFrom:
             expression = get_expression(
                 inp.inputBinding.valueFrom, inputs, example_input(inp.type_)
@@ -1428,26 +1422,36 @@ def traverse_CommandLineTool(
                 self_id = inp.id.split("#")[-1].split("/")[-1]
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
+                # the value can be of another type than the input, which has no
+                # inputBinding to evaluate when it is null
+                value_type = ["null", "Any"]
+                expression = (
+                    "${if (self === null) { return null; } " + expression.strip()[2:]
+                )
+                target = cwl.WorkflowInputParameter(id=None, type_=value_type)
                 replace_step_clt_expr_with_etool(
                     expression,
                     etool_id,
                     parent,
-                    inp,
+                    target,
                     step,
                     replace_etool,
                     self_id,
                     process=clt,
                 )
-                inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
+                target_inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
                 target_clt.inputs.append(
                     cwl_utils.expression_refactor.get_command_input_parameter(
-                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, inp.type_
+                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
+                        inp_id,
+                        value_type,
                     )
                 )
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for outp in clt.outputs:
+    output_evals: list[tuple[cwl_utils.parser.CommandOutputParameter, str]] = []
+    for outp, target_outp in zip(clt.outputs, list(target_clt.outputs)):
         if outp.outputBinding:
             if outp.outputBinding.glob:
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
@@ -1471,7 +1475,7 @@ def traverse_CommandLineTool(
                         replace_etool,
                         process=clt,
                     )
-                    outp.outputBinding.glob = f"$(inputs.{inp_id})"
+                    target_outp.outputBinding.glob = f"$(inputs.{inp_id})"
                     target_clt.inputs.append(
                         cwl_utils.expression_refactor.get_command_input_parameter(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
@@ -1498,156 +1502,99 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
                     modified = True
-                    outp_id = outp.id.split("#")[-1].split("/")[-1]
-                    inp_id = f"_{outp_id}_outputEval"
-                    etool_id = f"expression{inp_id}"
-                    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
-                        step, etool_id, outp_id
-                    )
-                    self_type = cwl.WorkflowInputParameter(
-                        id=None,
-                        type_=cwl.InputArraySchema("File", "array", None, None),
-                    )
-                    etool = generate_etool_from_expr(
-                        expression, outp, False, self_type, [parent, step, clt]
-                    )
-                    if outp.outputBinding.loadContents:
-                        etool.inputs[0].type_.inputBinding = (
-                            cwl_utils.expression_refactor.get_command_line_binding(
-                                etool.cwlVersion or _DEFAULT_CWL_VERSION,
-                                loadContents=True,
-                            )
-                        )
-                    etool.inputs.extend(
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    sub_wf_inputs = (
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    orig_step_inputs = copy.deepcopy(step.in_)
-                    for orig_step_input in orig_step_inputs:
-                        orig_step_input.id = orig_step_input.id.split("/")[-1]
-                        if isinstance(orig_step_input.source, MutableSequence):
-                            for index, source in enumerate(orig_step_input.source):
-                                orig_step_input.source[index] = source.split("#")[-1]
-                        else:
-                            orig_step_input.source = orig_step_input.source.split("#")[
-                                -1
-                            ]
-                    orig_step_inputs[:] = [
-                        x for x in orig_step_inputs if not x.id.startswith("_")
-                    ]
-                    for inp in orig_step_inputs:
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    final_etool: (
-                        cwl_utils.parser.CommandLineTool
-                        | cwl_utils.parser.ExpressionTool
-                    )
-                    if replace_etool:
-                        final_etool = cwl_utils.expression_refactor.etool_to_cltool(
-                            etool,
-                            _DEFAULT_CWL_VERSION,
-                            cwl_utils.expression_refactor.find_expressionLib(
-                                [parent, step, clt]
-                            ),
-                        )
-                    else:
-                        final_etool = etool
-                    etool_step = cwl.WorkflowStep(
-                        id=etool_id,
-                        in_=orig_step_inputs,
-                        out=[cwl.WorkflowStepOutput("result")],
-                        run=final_etool,
-                        scatterMethod=step.scatterMethod,
-                    )
-                    new_clt_step = copy.copy(
-                        step
-                    )  # a deepcopy would be convenient, but params2.cwl gives it problems
-                    new_clt_step.id = new_clt_step.id.split("#")[-1]
-                    new_clt_step.run = copy.copy(step.run)
-                    new_clt_step.run.id = None
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        new_clt_step.run, skip_command_line1
-                    )
-                    cwl_utils.expression_refactor.process_CommandLineTool_output(
-                        new_clt_step.run, _DEFAULT_CWL_VERSION, outp_id
-                    )
-                    new_clt_step.in_ = copy.deepcopy(step.in_)
-                    for inp in new_clt_step.in_:
-                        inp.id = inp.id.split("/")[-1]
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    for index, out in enumerate(new_clt_step.out):
-                        new_clt_step.out[index] = out.split("/")[-1]
-                    for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
-                    for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
-                    sub_wf_steps = [new_clt_step, etool_step]
-                    sub_workflow = cwl.Workflow(
-                        inputs=sub_wf_inputs,
-                        outputs=sub_wf_outputs,
-                        steps=sub_wf_steps,
-                        cwlVersion=parent.cwlVersion,
-                    )
-                    if step.scatter:
-                        new_clt_step.scatter = None
-                    step.run = sub_workflow
-                    rename_step_source(
-                        sub_workflow,
-                        f"{step_id}/{outp_id}",
-                        f"{etool_id}/result",
-                    )
-                    orig_step_inputs.append(
-                        cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}")
-                    )
-                    if not parent.requirements:
-                        parent.requirements = [cwl.SubworkflowFeatureRequirement()]
-                    else:
-                        has_sub_wf_req = False
-                        for req in parent.requirements:
-                            if isinstance(req, cwl.SubworkflowFeatureRequirement):
-                                has_sub_wf_req = True
-                        if not has_sub_wf_req:
-                            parent.requirements.append(
-                                cwl.SubworkflowFeatureRequirement()
-                            )
+                    output_evals.append((outp, expression))
+    if output_evals:
+        extract_outputEvals(
+            output_evals, clt, parent, step, replace_etool, skip_command_line1
+        )
+    cwl_utils.expression_refactor.remove_JSReq(
+        target_clt, skip_command_line1 or skip_command_line2
+    )
     return modified
 
 
-def rename_step_source(workflow: cwl.Workflow, old: str, new: str) -> None:
-    """Update step source names to the new name."""
-
-    def simplify_wf_id(uri: str) -> str:
-        return uri.split("#")[-1].split("/", 1)[1]
-
-    def simplify_step_id(uri: str) -> str:
-        return uri.split("#")[-1]
-
-    for wf_outp in workflow.outputs:
-        if wf_outp.outputSource and simplify_wf_id(wf_outp.outputSource) == old:
-            wf_outp.outputSource = new
-    for step in workflow.steps:
-        if step.in_:
-            for inp in step.in_:
-                if inp.source:
-                    if isinstance(inp.source, str):
-                        source_id = (
-                            simplify_step_id(inp.source)
-                            if "#" in inp.source
-                            else inp.source
-                        )
-                        if source_id == old:
-                            inp.source = new
-                    else:
-                        for index, source in enumerate(inp.source):
-                            if simplify_step_id(source) == old:
-                                inp.source[index] = new
+def extract_outputEvals(
+    output_evals: list[tuple[cwl_utils.parser.CommandOutputParameter, str]],
+    clt: cwl_utils.parser.CommandLineTool,
+    parent: cwl.Workflow,
+    step: cwl.WorkflowStep,
+    replace_etool: bool,
+    skip_command_line1: bool,
+) -> None:
+    """Replace the run of a step by a workflow with a step for each outputEval."""
+    step_id = step.id.split("#")[-1].split("/")[-1]
+    target_clt = step.run
+    sub_wf_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
+        target_clt, _DEFAULT_CWL_VERSION
+    )
+    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(step, "", "")
+    clt_step = cwl.WorkflowStep(
+        id=step_id,
+        in_=[
+            cwl.WorkflowStepInput(id=inp.id, source=inp.id) for inp in sub_wf_inputs
+        ],
+        out=[outp.id for outp in sub_wf_outputs],
+        run=target_clt,
+    )
+    sub_wf_steps = [clt_step]
+    for outp, expression in output_evals:
+        outp_id = outp.id.split("#")[-1].split("/")[-1]
+        etool_id = f"expression_{outp_id}_outputEval"
+        self_type = cwl.WorkflowInputParameter(
+            id=None,
+            type_=cwl.InputArraySchema(items="File", type_="array"),
+        )
+        etool = generate_etool_from_expr(
+            expression, outp, False, self_type, [parent, step, clt]
+        )
+        if outp.outputBinding.loadContents:
+            etool.inputs[0].loadContents = True
+        clt_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
+            clt, _DEFAULT_CWL_VERSION
+        )
+        etool.inputs.extend(clt_inputs)
+        final_etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
+        if replace_etool:
+            final_etool = cwl_utils.expression_refactor.etool_to_cltool(
+                etool,
+                _DEFAULT_CWL_VERSION,
+                cwl_utils.expression_refactor.find_expressionLib([parent, step, clt]),
+            )
+        else:
+            final_etool = etool
+        sub_wf_steps.append(
+            cwl.WorkflowStep(
+                id=etool_id,
+                in_=[
+                    cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}")
+                ]
+                + [
+                    cwl.WorkflowStepInput(id=inp.id, source=inp.id)
+                    for inp in clt_inputs
+                ],
+                out=[cwl.WorkflowStepOutput("result")],
+                run=final_etool,
+            )
+        )
+        for sub_wf_output in sub_wf_outputs:
+            if sub_wf_output.id == outp_id:
+                sub_wf_output.outputSource = f"{etool_id}/result"
+        cwl_utils.expression_refactor.process_CommandLineTool_output(
+            target_clt, _DEFAULT_CWL_VERSION, outp_id
+        )
+    step.run = cwl.Workflow(
+        inputs=sub_wf_inputs,
+        outputs=sub_wf_outputs,
+        steps=sub_wf_steps,
+        cwlVersion=parent.cwlVersion,
+    )
+    if not parent.requirements:
+        parent.requirements = [cwl.SubworkflowFeatureRequirement()]
+    elif not any(
+        isinstance(req, cwl.SubworkflowFeatureRequirement)
+        for req in parent.requirements
+    ):
+        parent.requirements.append(cwl.SubworkflowFeatureRequirement())
 
 
 def replace_step_clt_expr_with_etool(
-- 
2.43.0


From 2cf8337bf76bafc77aa6cac352559a13e58b1ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:48 +0000
Subject: [PATCH 084/121] fix: refactored expressions use all inputs, whatever
 their names

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 71 ++++++++++---------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 71 ++++++++++---------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 71 ++++++++++---------
 3 files changed, 108 insertions(+), 105 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index f949873..6d431f1 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -4,6 +4,7 @@
 """CWL Expression refactoring tool for CWL v1.0 ."""
 
 import copy
+import json
 import hashlib
 import uuid
 from collections.abc import MutableSequence, Sequence
@@ -1315,7 +1316,7 @@ def traverse_CommandLineTool(
                     self_id,
                     process=clt,
                 )
-                target_inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
+                target_inp.inputBinding.valueFrom = f'$(inputs["{inp_id}"])'
                 target_clt.inputs.append(
                     cwl_utils.expression_refactor.get_command_input_parameter(
                         target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
@@ -1351,7 +1352,7 @@ def traverse_CommandLineTool(
                         replace_etool,
                         process=clt,
                     )
-                    target_outp.outputBinding.glob = f"$(inputs.{inp_id})"
+                    target_outp.outputBinding.glob = f'$(inputs["{inp_id}"])'
                     target_clt.inputs.append(
                         cwl_utils.expression_refactor.get_command_input_parameter(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
@@ -1490,7 +1491,7 @@ def replace_step_clt_expr_with_etool(
 ) -> None:
     """Convert a step level CWL Expression to a sibling expression step."""
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-        step.run, _DEFAULT_CWL_VERSION
+        process or step.run, _DEFAULT_CWL_VERSION
     )
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
@@ -1514,7 +1515,8 @@ def replace_step_clt_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
+    etool_input_ids = [inp.id for inp in etool_inputs]
+    wf_step_inputs[:] = [x for x in wf_step_inputs if x.id in etool_input_ids]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1538,7 +1540,7 @@ def replace_clt_hintreq_expr_with_etool(
     """Factor out an expression inside a CommandLineTool req or hint into a sibling step."""
     # Same as replace_step_clt_expr_with_etool or different?
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-        step.run, _DEFAULT_CWL_VERSION
+        process or step.run, _DEFAULT_CWL_VERSION
     )
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
@@ -1562,7 +1564,8 @@ def replace_clt_hintreq_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
+    etool_input_ids = [inp.id for inp in etool_inputs]
+    wf_step_inputs[:] = [x for x in wf_step_inputs if x.id in etool_input_ids]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1581,21 +1584,20 @@ def cltool_inputs_to_etool_inputs(
     if tool.inputs:
         for clt_inp in tool.inputs:
             clt_inp_id = clt_inp.id.split("#")[-1].split("/")[-1]
-            if not clt_inp_id.startswith("_"):
-                inputs.append(
-                    cwl.InputParameter(
-                        id=clt_inp_id,
-                        label=clt_inp.label,
-                        secondaryFiles=clt_inp.secondaryFiles,
-                        streamable=clt_inp.streamable,
-                        doc=clt_inp.doc,
-                        format=clt_inp.format,
-                        default=clt_inp.default,
-                        type_=clt_inp.type_,
-                        extension_fields=clt_inp.extension_fields,
-                        loadingOptions=clt_inp.loadingOptions,
-                    )
+            inputs.append(
+                cwl.InputParameter(
+                    id=clt_inp_id,
+                    label=clt_inp.label,
+                    secondaryFiles=clt_inp.secondaryFiles,
+                    streamable=clt_inp.streamable,
+                    doc=clt_inp.doc,
+                    format=clt_inp.format,
+                    default=clt_inp.default,
+                    type_=clt_inp.type_,
+                    extension_fields=clt_inp.extension_fields,
+                    loadingOptions=clt_inp.loadingOptions,
                 )
+            )
     return inputs
 
 
@@ -1619,21 +1621,20 @@ def cltool_step_outputs_to_workflow_outputs(
                 outputSource = f"{etool_step_id}/result"
             else:
                 outputSource = f"{default_step_id}/{clt_out_id}"
-            if not clt_out_id.startswith("_"):
-                outputs.append(
-                    cwl.WorkflowOutputParameter(
-                        id=clt_out_id,
-                        label=clt_out.label,
-                        secondaryFiles=clt_out.secondaryFiles,
-                        streamable=clt_out.streamable,
-                        doc=clt_out.doc,
-                        format=clt_out.format,
-                        outputSource=outputSource,
-                        type_=clt_out.type_,
-                        extension_fields=clt_out.extension_fields,
-                        loadingOptions=clt_out.loadingOptions,
-                    )
+            outputs.append(
+                cwl.WorkflowOutputParameter(
+                    id=clt_out_id,
+                    label=clt_out.label,
+                    secondaryFiles=clt_out.secondaryFiles,
+                    streamable=clt_out.streamable,
+                    doc=clt_out.doc,
+                    format=clt_out.format,
+                    outputSource=outputSource,
+                    type_=clt_out.type_,
+                    extension_fields=clt_out.extension_fields,
+                    loadingOptions=clt_out.loadingOptions,
                 )
+            )
     return outputs
 
 
@@ -1661,7 +1662,7 @@ def generate_etool_from_expr2(
     )
     expression = "${"
     if self_name:
-        expression += f"\n  var self=inputs.{self_name};"
+        expression += f"\n  var self=inputs[{json.dumps(self_name)}];"
     expression += (
         """
   return {"result": function(){"""
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index fb74fd4..ec5a454 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -4,6 +4,7 @@
 """CWL Expression refactoring tool for CWL v1.1 ."""
 
 import copy
+import json
 import hashlib
 import uuid
 from collections.abc import MutableSequence, Sequence
@@ -1324,7 +1325,7 @@ def traverse_CommandLineTool(
                     self_id,
                     process=clt,
                 )
-                target_inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
+                target_inp.inputBinding.valueFrom = f'$(inputs["{inp_id}"])'
                 target_clt.inputs.append(
                     cwl_utils.expression_refactor.get_command_input_parameter(
                         target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
@@ -1360,7 +1361,7 @@ def traverse_CommandLineTool(
                         replace_etool,
                         process=clt,
                     )
-                    target_outp.outputBinding.glob = f"$(inputs.{inp_id})"
+                    target_outp.outputBinding.glob = f'$(inputs["{inp_id}"])'
                     target_clt.inputs.append(
                         cwl_utils.expression_refactor.get_command_input_parameter(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
@@ -1494,7 +1495,7 @@ def replace_step_clt_expr_with_etool(
 ) -> None:
     """Convert a step level CWL Expression to a sibling expression step."""
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-        step.run, _DEFAULT_CWL_VERSION
+        process or step.run, _DEFAULT_CWL_VERSION
     )
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
@@ -1518,7 +1519,8 @@ def replace_step_clt_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
+    etool_input_ids = [inp.id for inp in etool_inputs]
+    wf_step_inputs[:] = [x for x in wf_step_inputs if x.id in etool_input_ids]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1542,7 +1544,7 @@ def replace_clt_hintreq_expr_with_etool(
     """Factor out an expression inside a CommandLineTool req or hint into a sibling step."""
     # Same as replace_step_clt_expr_with_etool or different?
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-        step.run, _DEFAULT_CWL_VERSION
+        process or step.run, _DEFAULT_CWL_VERSION
     )
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
@@ -1566,7 +1568,8 @@ def replace_clt_hintreq_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
+    etool_input_ids = [inp.id for inp in etool_inputs]
+    wf_step_inputs[:] = [x for x in wf_step_inputs if x.id in etool_input_ids]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1585,21 +1588,20 @@ def cltool_inputs_to_etool_inputs(
     if tool.inputs:
         for clt_inp in tool.inputs:
             clt_inp_id = clt_inp.id.split("#")[-1].split("/")[-1]
-            if not clt_inp_id.startswith("_"):
-                inputs.append(
-                    cwl.WorkflowInputParameter(
-                        id=clt_inp_id,
-                        label=clt_inp.label,
-                        secondaryFiles=clt_inp.secondaryFiles,
-                        streamable=clt_inp.streamable,
-                        doc=clt_inp.doc,
-                        format=clt_inp.format,
-                        default=clt_inp.default,
-                        type_=clt_inp.type_,
-                        extension_fields=clt_inp.extension_fields,
-                        loadingOptions=clt_inp.loadingOptions,
-                    )
+            inputs.append(
+                cwl.WorkflowInputParameter(
+                    id=clt_inp_id,
+                    label=clt_inp.label,
+                    secondaryFiles=clt_inp.secondaryFiles,
+                    streamable=clt_inp.streamable,
+                    doc=clt_inp.doc,
+                    format=clt_inp.format,
+                    default=clt_inp.default,
+                    type_=clt_inp.type_,
+                    extension_fields=clt_inp.extension_fields,
+                    loadingOptions=clt_inp.loadingOptions,
                 )
+            )
     return inputs
 
 
@@ -1623,21 +1625,20 @@ def cltool_step_outputs_to_workflow_outputs(
                 outputSource = f"{etool_step_id}/result"
             else:
                 outputSource = f"{default_step_id}/{clt_out_id}"
-            if not clt_out_id.startswith("_"):
-                outputs.append(
-                    cwl.WorkflowOutputParameter(
-                        id=clt_out_id,
-                        label=clt_out.label,
-                        secondaryFiles=clt_out.secondaryFiles,
-                        streamable=clt_out.streamable,
-                        doc=clt_out.doc,
-                        format=clt_out.format,
-                        outputSource=outputSource,
-                        type_=clt_out.type_,
-                        extension_fields=clt_out.extension_fields,
-                        loadingOptions=clt_out.loadingOptions,
-                    )
+            outputs.append(
+                cwl.WorkflowOutputParameter(
+                    id=clt_out_id,
+                    label=clt_out.label,
+                    secondaryFiles=clt_out.secondaryFiles,
+                    streamable=clt_out.streamable,
+                    doc=clt_out.doc,
+                    format=clt_out.format,
+                    outputSource=outputSource,
+                    type_=clt_out.type_,
+                    extension_fields=clt_out.extension_fields,
+                    loadingOptions=clt_out.loadingOptions,
                 )
+            )
     return outputs
 
 
@@ -1669,7 +1670,7 @@ def generate_etool_from_expr2(
     )
     expression = "${"
     if self_name:
-        expression += f"\n  var self=inputs.{self_name};"
+        expression += f"\n  var self=inputs[{json.dumps(self_name)}];"
     expression += (
         """
   return {"result": function(){"""
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index e1da58a..c25b88c 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -4,6 +4,7 @@
 """CWL Expression refactoring tool for CWL v1.2 ."""
 
 import copy
+import json
 import hashlib
 import uuid
 from collections.abc import Mapping, MutableSequence, Sequence
@@ -1439,7 +1440,7 @@ def traverse_CommandLineTool(
                     self_id,
                     process=clt,
                 )
-                target_inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
+                target_inp.inputBinding.valueFrom = f'$(inputs["{inp_id}"])'
                 target_clt.inputs.append(
                     cwl_utils.expression_refactor.get_command_input_parameter(
                         target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
@@ -1475,7 +1476,7 @@ def traverse_CommandLineTool(
                         replace_etool,
                         process=clt,
                     )
-                    target_outp.outputBinding.glob = f"$(inputs.{inp_id})"
+                    target_outp.outputBinding.glob = f'$(inputs["{inp_id}"])'
                     target_clt.inputs.append(
                         cwl_utils.expression_refactor.get_command_input_parameter(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
@@ -1609,7 +1610,7 @@ def replace_step_clt_expr_with_etool(
 ) -> None:
     """Convert a step level CWL Expression to a sibling expression step."""
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-        step.run, _DEFAULT_CWL_VERSION
+        process or step.run, _DEFAULT_CWL_VERSION
     )
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
@@ -1633,7 +1634,8 @@ def replace_step_clt_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
+    etool_input_ids = [inp.id for inp in etool_inputs]
+    wf_step_inputs[:] = [x for x in wf_step_inputs if x.id in etool_input_ids]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1657,7 +1659,7 @@ def replace_clt_hintreq_expr_with_etool(
     """Factor out an expression inside a CommandLineTool req or hint into a sibling step."""
     # Same as replace_step_clt_expr_with_etool or different?
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-        step.run, _DEFAULT_CWL_VERSION
+        process or step.run, _DEFAULT_CWL_VERSION
     )
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
@@ -1681,7 +1683,8 @@ def replace_clt_hintreq_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
+    etool_input_ids = [inp.id for inp in etool_inputs]
+    wf_step_inputs[:] = [x for x in wf_step_inputs if x.id in etool_input_ids]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1700,21 +1703,20 @@ def cltool_inputs_to_etool_inputs(
     if tool.inputs:
         for clt_inp in tool.inputs:
             clt_inp_id = clt_inp.id.split("#")[-1].split("/")[-1]
-            if not clt_inp_id.startswith("_"):
-                inputs.append(
-                    cwl.WorkflowInputParameter(
-                        id=clt_inp_id,
-                        label=clt_inp.label,
-                        secondaryFiles=clt_inp.secondaryFiles,
-                        streamable=clt_inp.streamable,
-                        doc=clt_inp.doc,
-                        format=clt_inp.format,
-                        default=clt_inp.default,
-                        type_=clt_inp.type_,
-                        extension_fields=clt_inp.extension_fields,
-                        loadingOptions=clt_inp.loadingOptions,
-                    )
+            inputs.append(
+                cwl.WorkflowInputParameter(
+                    id=clt_inp_id,
+                    label=clt_inp.label,
+                    secondaryFiles=clt_inp.secondaryFiles,
+                    streamable=clt_inp.streamable,
+                    doc=clt_inp.doc,
+                    format=clt_inp.format,
+                    default=clt_inp.default,
+                    type_=clt_inp.type_,
+                    extension_fields=clt_inp.extension_fields,
+                    loadingOptions=clt_inp.loadingOptions,
                 )
+            )
     return inputs
 
 
@@ -1738,21 +1740,20 @@ def cltool_step_outputs_to_workflow_outputs(
                 outputSource = f"{etool_step_id}/result"
             else:
                 outputSource = f"{default_step_id}/{clt_out_id}"
-            if not clt_out_id.startswith("_"):
-                outputs.append(
-                    cwl.WorkflowOutputParameter(
-                        id=clt_out_id,
-                        label=clt_out.label,
-                        secondaryFiles=clt_out.secondaryFiles,
-                        streamable=clt_out.streamable,
-                        doc=clt_out.doc,
-                        format=clt_out.format,
-                        outputSource=outputSource,
-                        type_=clt_out.type_,
-                        extension_fields=clt_out.extension_fields,
-                        loadingOptions=clt_out.loadingOptions,
-                    )
+            outputs.append(
+                cwl.WorkflowOutputParameter(
+                    id=clt_out_id,
+                    label=clt_out.label,
+                    secondaryFiles=clt_out.secondaryFiles,
+                    streamable=clt_out.streamable,
+                    doc=clt_out.doc,
+                    format=clt_out.format,
+                    outputSource=outputSource,
+                    type_=clt_out.type_,
+                    extension_fields=clt_out.extension_fields,
+                    loadingOptions=clt_out.loadingOptions,
                 )
+            )
     return outputs
 
 
@@ -1788,7 +1789,7 @@ def generate_etool_from_expr2(
     )
     expression = "${"
     if self_name:
-        expression += f"\n  var self=inputs.{self_name};"
+        expression += f"\n  var self=inputs[{json.dumps(self_name)}];"
     expression += (
         """
   return {"result": function(){"""
-- 
2.43.0


From 05eea673deaad6306013fb806f23b9f1005ac511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:50 +0000
Subject: [PATCH 085/121] fix: refactored valueFrom and when expressions see
 the values of the step inputs

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 204 ++++++---------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 200 ++++++---------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 236 +++++++-----------
 3 files changed, 228 insertions(+), 412 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 6d431f1..a9327a3 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -15,7 +15,7 @@ from ruamel import yaml
 from schema_salad.metaschema import ArraySchema
 from schema_salad.runtime import save, LoadingOptions
 from schema_salad.sourceline import SourceLine
-from schema_salad.utils import json_dumps
+from schema_salad.utils import aslist, json_dumps
 
 import cwl_utils.expression_refactor
 import cwl_utils.parser
@@ -23,7 +23,6 @@ import cwl_utils.parser.cwl_v1_0 as cwl
 import cwl_utils.parser.cwl_v1_0_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
 from cwl_utils.expression import do_eval, interpolate, needs_parsing, scanner
-from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
     CWLFileType,
@@ -1700,69 +1699,25 @@ def traverse_step(
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
         if inp.valueFrom:
+            self: Any
             if not inp.source:
-                self = None
+                self = inp.default
             else:
-                if isinstance(inp.source, MutableSequence):
-                    self = []
-                    for source in inp.source:
-                        if not step.scatter:
-                            self.append(
-                                example_input(
-                                    utils.type_for_source(parent, source.split("#")[-1])
-                                )
-                            )
-                        else:
-                            scattered_source_type = utils.type_for_source(
-                                parent, source
-                            )
-                            if isinstance(scattered_source_type, list):
-                                for stype in scattered_source_type:
-                                    self.append(example_input(stype.type_))
-                            else:
-                                self.append(example_input(scattered_source_type.type_))
-                else:
-                    if not step.scatter:
-                        self = example_input(
-                            utils.type_for_source(parent, inp.source.split("#")[-1])
-                        )
-                    else:
-                        scattered_source_type2 = utils.type_for_source(
-                            parent, inp.source
+                self = []
+                for source in aslist(inp.source):
+                    with suppress(WorkflowException):
+                        source_type = utils.type_for_source(
+                            parent, source.split("#")[-1]
                         )
-                        if isinstance(scattered_source_type2, list):
-                            self = example_input(scattered_source_type2[0].type_)
-                        else:
-                            self = example_input(scattered_source_type2.type_)
+                        if step.scatter and inp.id in aslist(step.scatter):
+                            source_type = getattr(source_type, "items", source_type)
+                        self.append(example_input(source_type))
+                if not isinstance(inp.source, MutableSequence):
+                    self = self[0] if self else None
             expression = get_expression(inp.valueFrom, inputs, self)
             if expression:
                 modified = True
                 etool_id = "_expression_{}_{}".format(step_id, inp.id.split("/")[-1])
-                target = cwl_utils.expression_refactor.get_input_for_id(
-                    inp.id, original_process
-                )
-                if not target:
-                    raise WorkflowException("target not found")
-                input_source_id = None
-                if inp.source:
-                    if isinstance(inp.source, MutableSequence):
-                        input_source_id = []
-                        source_types: list[cwl.InputParameter] = []
-                        for source in inp.source:
-                            source_id = source.split("#")[-1]
-                            input_source_id.append(source_id)
-                            temp_type = utils.type_for_source(
-                                step.run, source_id, parent
-                            )
-                            if isinstance(temp_type, list):
-                                for ttype in temp_type:
-                                    if ttype not in source_types:
-                                        source_types.append(ttype)
-                            else:
-                                if temp_type not in source_types:
-                                    source_types.append(temp_type)
-                    else:
-                        input_source_id = inp.source.split("#")[-1]
                 # target.id = target.id.split('#')[-1]
                 if isinstance(original_process, cwl_utils.parser.ExpressionTool):
                     reqs: list[cwl.ProcessRequirement] = []
@@ -1790,15 +1745,22 @@ def traverse_step(
                     expression,
                     etool_id,
                     parent,
-                    target,
                     step,
                     inp,
-                    original_process,
                     original_step_ins,
-                    input_source_id,
                     replace_etool,
                 )
-                inp.valueFrom = None
+                # All of that happened already in the new step
+                for attr in (
+                    "default",
+                    "linkMerge",
+                    "loadContents",
+                    "loadListing",
+                    "pickValue",
+                    "valueFrom",
+                ):
+                    if hasattr(inp, attr):
+                        setattr(inp, attr, None)
                 inp.source = f"{etool_id}/result"
     # TODO: skip or special process for sub workflows?
     process_modified = process_level_reqs(
@@ -1826,74 +1788,64 @@ def traverse_step(
 
 
 def workflow_step_to_InputParameters(
-    step_ins: list[cwl.WorkflowStepInput], parent: cwl.Workflow, except_in_id: str
-) -> list[
-    cwl_utils.parser.CommandInputParameter
-    | cwl_utils.parser.CommandOutputParameter
-    | cwl_utils.parser.WorkflowInputParameter
-]:
+    step_ins: list[cwl.WorkflowStepInput],
+) -> list[cwl.InputParameter]:
     """Create InputParameters to match the given WorkflowStep inputs."""
-    params = []
-    for inp in step_ins:
-        if not inp.id:
-            continue
-        inp_id = inp.id.split("#")[-1].split("/")[-1]
-        if inp.source and inp_id != except_in_id:
-            param = copy.deepcopy(param_for_source_id(parent, sourcenames=inp.source))
-            if isinstance(param, MutableSequence):
-                for p in param:
-                    if not p.type_:
-                        raise WorkflowException(
-                            f"Don't know how to get type id for {p!r}."
-                        )
-                    p.id = inp_id
-                    p.type_ = clean_type_ids(p.type_)
-                    params.append(p)
-            else:
-                if not param.type_:
-                    raise WorkflowException(
-                        f"Don't know how to get type id for {param!r}."
-                    )
-                param.id = inp_id
-                param.type_ = clean_type_ids(param.type_)
-                params.append(param)
-    return params
+    return [
+        # The type of the values depends upon linkMerge, scatter, default, ...
+        cwl.InputParameter(
+            id=inp.id.split("#")[-1].split("/")[-1], type_=["null", "Any"]
+        )
+        for inp in step_ins
+        if inp.id
+    ]
+
+
+def scatter_expression_step(
+    expression_step: cwl.WorkflowStep, step: cwl.WorkflowStep, new_input_id: str
+) -> None:
+    """
+    Evaluate an expression for each of the jobs of a scattered step.
+
+    The results are for the given input of the step.
+    """
+    if not step.scatter:
+        return
+    scatter = [x.split("/")[-1] for x in aslist(step.scatter)]
+    if len(scatter) > 1 and step.scatterMethod != "dotproduct":
+        raise WorkflowException(
+            f"Sorry, expressions of a step with the scatterMethod "
+            f"{step.scatterMethod!r} are not able to be refactored."
+        )
+    expression_step.scatter = list(scatter)
+    if len(scatter) > 1:
+        expression_step.scatterMethod = "dotproduct"
+    if new_input_id not in scatter:
+        step.scatter = list(aslist(step.scatter)) + [new_input_id]
+        step.scatterMethod = "dotproduct"
 
 
 def replace_step_valueFrom_expr_with_etool(
     expr: str,
     name: str,
     workflow: cwl.Workflow,
-    target: (
-        cwl_utils.parser.CommandInputParameter
-        | cwl_utils.parser.WorkflowInputParameter
-        | cwl_utils.parser.OperationInputParameter
-    ),
     step: cwl.WorkflowStep,
     step_inp: cwl.WorkflowStepInput,
-    original_process: cwl_utils.parser.Process,
     original_step_ins: list[cwl.WorkflowStepInput],
-    source: str | list[str] | None,
     replace_etool: bool,
 ) -> None:
     """Replace a WorkflowStep level 'valueFrom' expression with a sibling ExpressionTool step."""
     if not step_inp.id:
         raise WorkflowException(f"Missing id in {step_inp}.")
     step_inp_id = step_inp.id.split("/")[-1]
-    etool_inputs = workflow_step_to_InputParameters(
-        original_step_ins, workflow, step_inp_id
-    )
-    if source:
-        source_param = cwl.InputParameter(id="self", type_="Any")
-        # TODO: would be nicer to derive a proper type; but in the face of linkMerge, this is easier for now
-        etool_inputs.append(source_param)
+    etool_inputs = workflow_step_to_InputParameters(original_step_ins)
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
         _DEFAULT_CWL_VERSION,
-        target,
+        cwl.InputParameter(id=None, type_=["null", "Any"]),
         etool_inputs,
-        "self" if source else None,
-        original_process,
+        step_inp_id,
+        None,
         [workflow, step],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
@@ -1912,8 +1864,6 @@ def replace_step_valueFrom_expr_with_etool(
     else:
         etool = temp_etool
     wf_step_inputs = copy.deepcopy(original_step_ins)
-    if source:
-        wf_step_inputs.append(cwl.WorkflowStepInput(id="self", source=step_inp.source))
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
         if wf_step_input.valueFrom:
@@ -1924,32 +1874,20 @@ def replace_step_valueFrom_expr_with_etool(
                     wf_step_input.source[index] = inp_source.split("#")[-1]
             else:
                 wf_step_input.source = wf_step_input.source.split("#")[-1]
+    # Others are null for the expression
     wf_step_inputs[:] = [
         x
         for x in wf_step_inputs
-        if x.id and not (x.id.startswith("_") or x.id.endswith(step_inp_id))
+        if not (x.source is None and x.default is None and x.valueFrom is None)
     ]
-    scatter = copy.deepcopy(step.scatter)
-    if isinstance(scatter, str):
-        scatter = [scatter]
-    if isinstance(scatter, MutableSequence):
-        for index, entry in enumerate(scatter):
-            scatter[index] = entry.split("/")[-1]
-    if scatter and step_inp_id in scatter:
-        scatter = ["self"]
-    # do we still need to scatter?
-    else:
-        scatter = None
-    workflow.steps.append(
-        cwl.WorkflowStep(
-            id=name,
-            in_=wf_step_inputs,
-            out=[cwl.WorkflowStepOutput("result")],
-            run=etool,
-            scatter=scatter,
-            scatterMethod=step.scatterMethod,
-        )
+    expression_step = cwl.WorkflowStep(
+        id=name,
+        in_=wf_step_inputs,
+        out=[cwl.WorkflowStepOutput("result")],
+        run=etool,
     )
+    scatter_expression_step(expression_step, step, step_inp_id)
+    workflow.steps.append(expression_step)
 
 
 def traverse_workflow(
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index ec5a454..0729d8d 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -15,7 +15,7 @@ from ruamel import yaml
 from schema_salad.metaschema import ArraySchema
 from schema_salad.runtime import save, LoadingOptions
 from schema_salad.sourceline import SourceLine
-from schema_salad.utils import json_dumps
+from schema_salad.utils import aslist, json_dumps
 
 import cwl_utils.expression_refactor
 import cwl_utils.parser
@@ -23,7 +23,6 @@ import cwl_utils.parser.cwl_v1_1 as cwl
 import cwl_utils.parser.cwl_v1_1_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
 from cwl_utils.expression import do_eval, interpolate, needs_parsing, scanner
-from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
     CWLFileType,
@@ -1708,69 +1707,25 @@ def traverse_step(
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
         if inp.valueFrom:
+            self: Any
             if not inp.source:
-                self = None
+                self = inp.default
             else:
-                if isinstance(inp.source, MutableSequence):
-                    self = []
-                    for source in inp.source:
-                        if not step.scatter:
-                            self.append(
-                                example_input(
-                                    utils.type_for_source(parent, source.split("#")[-1])
-                                )
-                            )
-                        else:
-                            scattered_source_type = utils.type_for_source(
-                                parent, source
-                            )
-                            if isinstance(scattered_source_type, list):
-                                for stype in scattered_source_type:
-                                    self.append(example_input(stype.type_))
-                            else:
-                                self.append(example_input(scattered_source_type.type_))
-                else:
-                    if not step.scatter:
-                        self = example_input(
-                            utils.type_for_source(parent, inp.source.split("#")[-1])
-                        )
-                    else:
-                        scattered_source_type2 = utils.type_for_source(
-                            parent, inp.source
+                self = []
+                for source in aslist(inp.source):
+                    with suppress(WorkflowException):
+                        source_type = utils.type_for_source(
+                            parent, source.split("#")[-1]
                         )
-                        if isinstance(scattered_source_type2, list):
-                            self = example_input(scattered_source_type2[0].type_)
-                        else:
-                            self = example_input(scattered_source_type2.type_)
+                        if step.scatter and inp.id in aslist(step.scatter):
+                            source_type = getattr(source_type, "items", source_type)
+                        self.append(example_input(source_type))
+                if not isinstance(inp.source, MutableSequence):
+                    self = self[0] if self else None
             expression = get_expression(inp.valueFrom, inputs, self)
             if expression:
                 modified = True
                 etool_id = "_expression_{}_{}".format(step_id, inp.id.split("/")[-1])
-                target = cwl_utils.expression_refactor.get_input_for_id(
-                    inp.id, original_process
-                )
-                if not target:
-                    raise WorkflowException("target not found")
-                input_source_id = None
-                if inp.source:
-                    if isinstance(inp.source, MutableSequence):
-                        input_source_id = []
-                        source_types: list[cwl_utils.parser.WorkflowInputParameter] = []
-                        for source in inp.source:
-                            source_id = source.split("#")[-1]
-                            input_source_id.append(source_id)
-                            temp_type = utils.type_for_source(
-                                step.run, source_id, parent
-                            )
-                            if isinstance(temp_type, list):
-                                for ttype in temp_type:
-                                    if ttype not in source_types:
-                                        source_types.append(ttype)
-                            else:
-                                if temp_type not in source_types:
-                                    source_types.append(temp_type)
-                    else:
-                        input_source_id = inp.source.split("#")[-1]
                 # target.id = target.id.split('#')[-1]
                 if isinstance(original_process, cwl_utils.parser.ExpressionTool):
                     reqs: list[cwl.ProcessRequirement] = []
@@ -1798,15 +1753,22 @@ def traverse_step(
                     expression,
                     etool_id,
                     parent,
-                    target,
                     step,
                     inp,
-                    original_process,
                     original_step_ins,
-                    input_source_id,
                     replace_etool,
                 )
-                inp.valueFrom = None
+                # All of that happened already in the new step
+                for attr in (
+                    "default",
+                    "linkMerge",
+                    "loadContents",
+                    "loadListing",
+                    "pickValue",
+                    "valueFrom",
+                ):
+                    if hasattr(inp, attr):
+                        setattr(inp, attr, None)
                 inp.source = f"{etool_id}/result"
     # TODO: skip or special process for sub workflows?
     process_modified = process_level_reqs(
@@ -1834,70 +1796,64 @@ def traverse_step(
 
 
 def workflow_step_to_WorkflowInputParameters(
-    step_ins: list[cwl.WorkflowStepInput], parent: cwl.Workflow, except_in_id: str
-) -> MutableSequence[
-    cwl_utils.parser.CommandInputParameter
-    | cwl_utils.parser.CommandOutputParameter
-    | cwl_utils.parser.WorkflowInputParameter
-]:
+    step_ins: list[cwl.WorkflowStepInput],
+) -> list[cwl.WorkflowInputParameter]:
     """Create WorkflowInputParameters to match the given WorkflowStep inputs."""
-    params = []
-    for inp in step_ins:
-        if not inp.id:
-            continue
-        inp_id = inp.id.split("#")[-1].split("/")[-1]
-        if inp.source and inp_id != except_in_id:
-            param = copy.deepcopy(param_for_source_id(parent, sourcenames=inp.source))
-            if isinstance(param, MutableSequence):
-                for p in param:
-                    p.id = inp_id
-                    p.type_ = clean_type_ids(
-                        cast(ArraySchema | cwl.InputRecordSchema, p.type_)
-                    )
-                    params.append(p)
-            else:
-                param.id = inp_id
-                param.type_ = clean_type_ids(
-                    cast(ArraySchema | cwl.InputRecordSchema, param.type_)
-                )
-                params.append(param)
-    return params
+    return [
+        # The type of the values depends upon linkMerge, scatter, default, ...
+        cwl.WorkflowInputParameter(
+            id=inp.id.split("#")[-1].split("/")[-1], type_=["null", "Any"]
+        )
+        for inp in step_ins
+        if inp.id
+    ]
+
+
+def scatter_expression_step(
+    expression_step: cwl.WorkflowStep, step: cwl.WorkflowStep, new_input_id: str
+) -> None:
+    """
+    Evaluate an expression for each of the jobs of a scattered step.
+
+    The results are for the given input of the step.
+    """
+    if not step.scatter:
+        return
+    scatter = [x.split("/")[-1] for x in aslist(step.scatter)]
+    if len(scatter) > 1 and step.scatterMethod != "dotproduct":
+        raise WorkflowException(
+            f"Sorry, expressions of a step with the scatterMethod "
+            f"{step.scatterMethod!r} are not able to be refactored."
+        )
+    expression_step.scatter = list(scatter)
+    if len(scatter) > 1:
+        expression_step.scatterMethod = "dotproduct"
+    if new_input_id not in scatter:
+        step.scatter = list(aslist(step.scatter)) + [new_input_id]
+        step.scatterMethod = "dotproduct"
 
 
 def replace_step_valueFrom_expr_with_etool(
     expr: str,
     name: str,
     workflow: cwl.Workflow,
-    target: (
-        cwl_utils.parser.CommandInputParameter
-        | cwl_utils.parser.WorkflowInputParameter
-        | cwl_utils.parser.OperationInputParameter
-    ),
     step: cwl.WorkflowStep,
     step_inp: cwl.WorkflowStepInput,
-    original_process: cwl_utils.parser.Process,
     original_step_ins: list[cwl.WorkflowStepInput],
-    source: str | list[str] | None,
     replace_etool: bool,
 ) -> None:
     """Replace a WorkflowStep level 'valueFrom' expression with a sibling ExpressionTool step."""
     if not step_inp.id:
         raise WorkflowException(f"Missing id in {step_inp}.")
     step_inp_id = step_inp.id.split("/")[-1]
-    etool_inputs = workflow_step_to_WorkflowInputParameters(
-        original_step_ins, workflow, step_inp_id
-    )
-    if source:
-        source_param = cwl.WorkflowInputParameter(id="self", type_="Any")
-        # TODO: would be nicer to derive a proper type; but in the face of linkMerge, this is easier for now
-        etool_inputs.append(source_param)
+    etool_inputs = workflow_step_to_WorkflowInputParameters(original_step_ins)
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
         _DEFAULT_CWL_VERSION,
-        target,
+        cwl.WorkflowInputParameter(id=None, type_=["null", "Any"]),
         etool_inputs,
-        "self" if source else None,
-        original_process,
+        step_inp_id,
+        None,
         [workflow, step],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
@@ -1916,8 +1872,6 @@ def replace_step_valueFrom_expr_with_etool(
     else:
         etool = temp_etool
     wf_step_inputs = copy.deepcopy(original_step_ins)
-    if source:
-        wf_step_inputs.append(cwl.WorkflowStepInput(id="self", source=step_inp.source))
     for wf_step_input in wf_step_inputs:
         if not wf_step_input.id:
             continue
@@ -1930,32 +1884,20 @@ def replace_step_valueFrom_expr_with_etool(
                     wf_step_input.source[index] = inp_source.split("#")[-1]
             else:
                 wf_step_input.source = wf_step_input.source.split("#")[-1]
+    # Others are null for the expression
     wf_step_inputs[:] = [
         x
         for x in wf_step_inputs
-        if x.id and not (x.id.startswith("_") or x.id.endswith(step_inp_id))
+        if not (x.source is None and x.default is None and x.valueFrom is None)
     ]
-    scatter = copy.deepcopy(step.scatter)
-    if isinstance(scatter, str):
-        scatter = [scatter]
-    if isinstance(scatter, MutableSequence):
-        for index, entry in enumerate(scatter):
-            scatter[index] = entry.split("/")[-1]
-    if scatter and step_inp_id in scatter:
-        scatter = ["self"]
-    # do we still need to scatter?
-    else:
-        scatter = None
-    workflow.steps.append(
-        cwl.WorkflowStep(
-            id=name,
-            in_=wf_step_inputs,
-            out=[cwl.WorkflowStepOutput("result")],
-            run=etool,
-            scatter=scatter,
-            scatterMethod=step.scatterMethod,
-        )
+    expression_step = cwl.WorkflowStep(
+        id=name,
+        in_=wf_step_inputs,
+        out=[cwl.WorkflowStepOutput("result")],
+        run=etool,
     )
+    scatter_expression_step(expression_step, step, step_inp_id)
+    workflow.steps.append(expression_step)
 
 
 def traverse_workflow(
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index c25b88c..720ad64 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -15,7 +15,7 @@ from ruamel import yaml
 from schema_salad.metaschema import ArraySchema
 from schema_salad.runtime import save, LoadingOptions
 from schema_salad.sourceline import SourceLine
-from schema_salad.utils import json_dumps
+from schema_salad.utils import aslist, json_dumps
 
 import cwl_utils.expression_refactor
 import cwl_utils.parser
@@ -23,7 +23,6 @@ import cwl_utils.parser.cwl_v1_2 as cwl
 import cwl_utils.parser.cwl_v1_2_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
 from cwl_utils.expression import do_eval, interpolate, needs_parsing, scanner
-from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
     CWLFileType,
@@ -1827,69 +1826,25 @@ def traverse_step(
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
         if inp.valueFrom:
+            self: Any
             if not inp.source:
-                self = None
+                self = inp.default
             else:
-                if isinstance(inp.source, MutableSequence):
-                    self = []
-                    for source in inp.source:
-                        if not step.scatter:
-                            self.append(
-                                example_input(
-                                    utils.type_for_source(parent, source.split("#")[-1])
-                                )
-                            )
-                        else:
-                            scattered_source_type = utils.type_for_source(
-                                parent, source
-                            )
-                            if isinstance(scattered_source_type, list):
-                                for stype in scattered_source_type:
-                                    self.append(example_input(stype.type_))
-                            else:
-                                self.append(example_input(scattered_source_type.type_))
-                else:
-                    if not step.scatter:
-                        self = example_input(
-                            utils.type_for_source(parent, inp.source.split("#")[-1])
-                        )
-                    else:
-                        scattered_source_type2 = utils.type_for_source(
-                            parent, inp.source
+                self = []
+                for source in aslist(inp.source):
+                    with suppress(WorkflowException):
+                        source_type = utils.type_for_source(
+                            parent, source.split("#")[-1]
                         )
-                        if isinstance(scattered_source_type2, list):
-                            self = example_input(scattered_source_type2[0].type_)
-                        else:
-                            self = example_input(scattered_source_type2.type_)
+                        if step.scatter and inp.id in aslist(step.scatter):
+                            source_type = getattr(source_type, "items", source_type)
+                        self.append(example_input(source_type))
+                if not isinstance(inp.source, MutableSequence):
+                    self = self[0] if self else None
             expression = get_expression(inp.valueFrom, inputs, self)
             if expression:
                 modified = True
                 etool_id = "_expression_{}_{}".format(step_id, inp.id.split("/")[-1])
-                target = cwl_utils.expression_refactor.get_input_for_id(
-                    inp.id, original_process
-                )
-                if not target:
-                    raise WorkflowException("target not found")
-                input_source_id = None
-                if inp.source:
-                    if isinstance(inp.source, MutableSequence):
-                        input_source_id = []
-                        source_types: list[cwl.WorkflowInputParameter] = []
-                        for source in inp.source:
-                            source_id = source.split("#")[-1]
-                            input_source_id.append(source_id)
-                            temp_type = utils.type_for_source(
-                                step.run, source_id, parent
-                            )
-                            if isinstance(temp_type, list):
-                                for ttype in temp_type:
-                                    if ttype not in source_types:
-                                        source_types.append(ttype)
-                            else:
-                                if temp_type not in source_types:
-                                    source_types.append(temp_type)
-                    else:
-                        input_source_id = inp.source.split("#")[-1]
                 # target.id = target.id.split('#')[-1]
                 if isinstance(original_process, cwl_utils.parser.ExpressionTool):
                     reqs: list[cwl.ProcessRequirement] = []
@@ -1917,22 +1872,29 @@ def traverse_step(
                     expression,
                     etool_id,
                     parent,
-                    target,
                     step,
                     inp,
-                    original_process,
                     original_step_ins,
-                    input_source_id,
                     replace_etool,
                 )
-                inp.valueFrom = None
+                # All of that happened already in the new step
+                for attr in (
+                    "default",
+                    "linkMerge",
+                    "loadContents",
+                    "loadListing",
+                    "pickValue",
+                    "valueFrom",
+                ):
+                    if hasattr(inp, attr):
+                        setattr(inp, attr, None)
                 inp.source = f"{etool_id}/result"
     if step.when:
         expression = get_expression(string=step.when, inputs=inputs, self=None)
         if expression:
             modified = True
             replace_step_when_expr_with_etool(
-                expression, parent, step, original_step_ins, replace_etool
+                expression, parent, step, copy.deepcopy(step.in_), replace_etool
             )
 
     # TODO: skip or special process for sub workflows?
@@ -1961,70 +1923,64 @@ def traverse_step(
 
 
 def workflow_step_to_WorkflowInputParameters(
-    step_ins: list[cwl.WorkflowStepInput], parent: cwl.Workflow, except_in_id: str
-) -> MutableSequence[
-    cwl_utils.parser.CommandInputParameter
-    | cwl_utils.parser.CommandOutputParameter
-    | cwl_utils.parser.WorkflowInputParameter
-]:
+    step_ins: list[cwl.WorkflowStepInput],
+) -> list[cwl.WorkflowInputParameter]:
     """Create WorkflowInputParameters to match the given WorkflowStep inputs."""
-    params = []
-    for inp in step_ins:
-        if not inp.id:
-            continue
-        inp_id = inp.id.split("#")[-1].split("/")[-1]
-        if inp.source and inp_id != except_in_id:
-            param = copy.deepcopy(param_for_source_id(parent, sourcenames=inp.source))
-            if isinstance(param, MutableSequence):
-                for p in param:
-                    p.id = inp_id
-                    p.type_ = clean_type_ids(
-                        cast(ArraySchema | cwl.InputRecordSchema, p.type_)
-                    )
-                    params.append(p)
-            else:
-                param.id = inp_id
-                param.type_ = clean_type_ids(
-                    cast(ArraySchema | cwl.InputRecordSchema, param.type_)
-                )
-                params.append(param)
-    return params
+    return [
+        # The type of the values depends upon linkMerge, scatter, default, ...
+        cwl.WorkflowInputParameter(
+            id=inp.id.split("#")[-1].split("/")[-1], type_=["null", "Any"]
+        )
+        for inp in step_ins
+        if inp.id
+    ]
+
+
+def scatter_expression_step(
+    expression_step: cwl.WorkflowStep, step: cwl.WorkflowStep, new_input_id: str
+) -> None:
+    """
+    Evaluate an expression for each of the jobs of a scattered step.
+
+    The results are for the given input of the step.
+    """
+    if not step.scatter:
+        return
+    scatter = [x.split("/")[-1] for x in aslist(step.scatter)]
+    if len(scatter) > 1 and step.scatterMethod != "dotproduct":
+        raise WorkflowException(
+            f"Sorry, expressions of a step with the scatterMethod "
+            f"{step.scatterMethod!r} are not able to be refactored."
+        )
+    expression_step.scatter = list(scatter)
+    if len(scatter) > 1:
+        expression_step.scatterMethod = "dotproduct"
+    if new_input_id not in scatter:
+        step.scatter = list(aslist(step.scatter)) + [new_input_id]
+        step.scatterMethod = "dotproduct"
 
 
 def replace_step_valueFrom_expr_with_etool(
     expr: str,
     name: str,
     workflow: cwl.Workflow,
-    target: (
-        cwl_utils.parser.CommandInputParameter
-        | cwl_utils.parser.WorkflowInputParameter
-        | cwl_utils.parser.OperationInputParameter
-    ),
     step: cwl.WorkflowStep,
     step_inp: cwl.WorkflowStepInput,
-    original_process: cwl_utils.parser.Process,
     original_step_ins: list[cwl.WorkflowStepInput],
-    source: str | list[str] | None,
     replace_etool: bool,
 ) -> None:
     """Replace a WorkflowStep level 'valueFrom' expression with a sibling ExpressionTool step."""
     if not step_inp.id:
         raise WorkflowException(f"Missing id in {step_inp}.")
     step_inp_id = step_inp.id.split("/")[-1]
-    etool_inputs = workflow_step_to_WorkflowInputParameters(
-        original_step_ins, workflow, step_inp_id
-    )
-    if source:
-        source_param = cwl.WorkflowInputParameter(id="self", type_="Any")
-        # TODO: would be nicer to derive a proper type; but in the face of linkMerge, this is easier for now
-        etool_inputs.append(source_param)
+    etool_inputs = workflow_step_to_WorkflowInputParameters(original_step_ins)
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
         _DEFAULT_CWL_VERSION,
-        target,
+        cwl.WorkflowInputParameter(id=None, type_=["null", "Any"]),
         etool_inputs,
-        "self" if source else None,
-        original_process,
+        step_inp_id,
+        None,
         [workflow, step],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
@@ -2043,8 +1999,6 @@ def replace_step_valueFrom_expr_with_etool(
     else:
         etool = temp_etool
     wf_step_inputs = copy.deepcopy(original_step_ins)
-    if source:
-        wf_step_inputs.append(cwl.WorkflowStepInput(id="self", source=step_inp.source))
     for wf_step_input in wf_step_inputs:
         if not wf_step_input.id:
             continue
@@ -2057,32 +2011,20 @@ def replace_step_valueFrom_expr_with_etool(
                     wf_step_input.source[index] = inp_source.split("#")[-1]
             else:
                 wf_step_input.source = wf_step_input.source.split("#")[-1]
+    # Others are null for the expression
     wf_step_inputs[:] = [
         x
         for x in wf_step_inputs
-        if x.id and not (x.id.startswith("_") or x.id.endswith(step_inp_id))
+        if not (x.source is None and x.default is None and x.valueFrom is None)
     ]
-    scatter = copy.deepcopy(step.scatter)
-    if isinstance(scatter, str):
-        scatter = [scatter]
-    if isinstance(scatter, MutableSequence):
-        for index, entry in enumerate(scatter):
-            scatter[index] = entry.split("/")[-1]
-    if scatter and step_inp_id in scatter:
-        scatter = ["self"]
-    # do we still need to scatter?
-    else:
-        scatter = None
-    workflow.steps.append(
-        cwl.WorkflowStep(
-            id=name,
-            in_=wf_step_inputs,
-            out=[cwl.WorkflowStepOutput("result")],
-            run=etool,
-            scatter=scatter,
-            scatterMethod=step.scatterMethod,
-        )
+    expression_step = cwl.WorkflowStep(
+        id=name,
+        in_=wf_step_inputs,
+        out=[cwl.WorkflowStepOutput("result")],
+        run=etool,
     )
+    scatter_expression_step(expression_step, step, step_inp_id)
+    workflow.steps.append(expression_step)
 
 
 def replace_step_when_expr_with_etool(
@@ -2096,9 +2038,7 @@ def replace_step_when_expr_with_etool(
     if not step.id:
         raise WorkflowException(f"Missing id from {step}.")
     etool_id = "_when_expression_{}".format(step.id.split("#")[-1])
-    etool_inputs = workflow_step_to_WorkflowInputParameters(
-        original_step_ins, workflow, ""
-    )
+    etool_inputs = workflow_step_to_WorkflowInputParameters(original_step_ins)
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
         _DEFAULT_CWL_VERSION,
@@ -2134,24 +2074,20 @@ def replace_step_when_expr_with_etool(
                     wf_step_input.source[index] = inp_source.split("#")[-1]
             else:
                 wf_step_input.source = wf_step_input.source.split("#")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if x.id and not x.id.startswith("_")]
-    scatter = copy.deepcopy(step.scatter)
-    if isinstance(scatter, str):
-        scatter = [scatter]
-    if isinstance(scatter, MutableSequence):
-        for index, entry in enumerate(scatter):
-            scatter[index] = entry.split("/")[-1]
-    scatter = step.scatter
-    workflow.steps.append(
-        cwl.WorkflowStep(
-            id=etool_id,
-            in_=wf_step_inputs,
-            out=[cwl.WorkflowStepOutput("result")],
-            run=etool,
-            scatter=scatter,
-            scatterMethod=step.scatterMethod,
-        )
+    # Others are null for the expression
+    wf_step_inputs[:] = [
+        x
+        for x in wf_step_inputs
+        if not (x.source is None and x.default is None and x.valueFrom is None)
+    ]
+    expression_step = cwl.WorkflowStep(
+        id=etool_id,
+        in_=wf_step_inputs,
+        out=[cwl.WorkflowStepOutput("result")],
+        run=etool,
     )
+    scatter_expression_step(expression_step, step, "_when")
+    workflow.steps.append(expression_step)
     step.when = "$(inputs._when)"
     step.in_.append(cwl.WorkflowStepInput(id="_when", source=f"{etool_id}/result"))
 
-- 
2.43.0


From 67b153b7659021e6a35843f646be37875df4e5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:23 +0000
Subject: [PATCH 086/121] fix: expressions in sub-workflows and in tools of
 scattered or conditional steps can be refactored

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 56 ++++++++++++++++---
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 56 ++++++++++++++++---
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 56 ++++++++++++++++---
 src/cwl_utils/expression_refactor.py          | 19 ++++++-
 4 files changed, 165 insertions(+), 22 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index a9327a3..b7db293 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1469,13 +1469,7 @@ def extract_outputEvals(
         steps=sub_wf_steps,
         cwlVersion=parent.cwlVersion,
     )
-    if not parent.requirements:
-        parent.requirements = [cwl.SubworkflowFeatureRequirement()]
-    elif not any(
-        isinstance(req, cwl.SubworkflowFeatureRequirement)
-        for req in parent.requirements
-    ):
-        parent.requirements.append(cwl.SubworkflowFeatureRequirement())
+    add_SubworkflowFeatureRequirement(parent)
 
 
 def replace_step_clt_expr_with_etool(
@@ -1680,6 +1674,32 @@ def generate_etool_from_expr2(
     )
 
 
+def inherit_expressionLib(
+    process: cwl.CommandLineTool | cwl.Workflow,
+    parents: list[cwl.Workflow | cwl.WorkflowStep],
+) -> None:
+    """Give the process the expressionLib of its parents, if it has none of its own."""
+    if cwl_utils.expression_refactor.find_expressionLib([process]) is None:
+        expression_lib = cwl_utils.expression_refactor.find_expressionLib(parents)
+        if expression_lib is not None:
+            process.requirements = [
+                req
+                for req in process.requirements or []
+                if not isinstance(req, cwl.InlineJavascriptRequirement)
+            ] + [cwl.InlineJavascriptRequirement(expression_lib)]
+
+
+def add_SubworkflowFeatureRequirement(workflow: cwl.Workflow) -> None:
+    """Allow sub-workflows as steps of the workflow."""
+    if not workflow.requirements:
+        workflow.requirements = [cwl.SubworkflowFeatureRequirement()]
+    elif not any(
+        isinstance(req, cwl.SubworkflowFeatureRequirement)
+        for req in workflow.requirements
+    ):
+        workflow.requirements.append(cwl.SubworkflowFeatureRequirement())
+
+
 def traverse_step(
     step: cwl.WorkflowStep,
     parent: cwl.Workflow,
@@ -1695,6 +1715,28 @@ def traverse_step(
     step_id = step.id.split("#")[-1]
     if isinstance(step.run, cwl.CommandLineTool):
         step.run = expand_stream_shortcuts(step.run)
+    if isinstance(step.run, cwl.Workflow) or (
+        isinstance(step.run, cwl.CommandLineTool) and step.scatter
+    ):
+        # The expressions of a tool are evaluated for each of the jobs of a
+        # scattered step
+        process = copy.deepcopy(step.run)
+        inherit_expressionLib(process, [parent, step])
+        if not process.id or process.id.startswith("_:") or "#" in process.id:
+            # The identifiers of an inline process start with those of its parents
+            prefix = f"{step.id}/"
+            if process.id and "#" in process.id:
+                prefix = f"{process.id}/"
+            process.id = f"_:{uuid.uuid4()}"
+            cwl_utils.expression_refactor.rename_prefix(
+                process, prefix, f"{process.id}#"
+            )
+        process, modified = traverse(
+            process, replace_etool, False, skip_command_line1, skip_command_line2
+        )
+        if modified:
+            step.run = process
+            add_SubworkflowFeatureRequirement(parent)
     original_process = copy.deepcopy(step.run)
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 0729d8d..e673366 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1473,13 +1473,7 @@ def extract_outputEvals(
         steps=sub_wf_steps,
         cwlVersion=parent.cwlVersion,
     )
-    if not parent.requirements:
-        parent.requirements = [cwl.SubworkflowFeatureRequirement()]
-    elif not any(
-        isinstance(req, cwl.SubworkflowFeatureRequirement)
-        for req in parent.requirements
-    ):
-        parent.requirements.append(cwl.SubworkflowFeatureRequirement())
+    add_SubworkflowFeatureRequirement(parent)
 
 
 def replace_step_clt_expr_with_etool(
@@ -1688,6 +1682,32 @@ def generate_etool_from_expr2(
     )
 
 
+def inherit_expressionLib(
+    process: cwl.CommandLineTool | cwl.Workflow,
+    parents: list[cwl.Workflow | cwl.WorkflowStep],
+) -> None:
+    """Give the process the expressionLib of its parents, if it has none of its own."""
+    if cwl_utils.expression_refactor.find_expressionLib([process]) is None:
+        expression_lib = cwl_utils.expression_refactor.find_expressionLib(parents)
+        if expression_lib is not None:
+            process.requirements = [
+                req
+                for req in process.requirements or []
+                if not isinstance(req, cwl.InlineJavascriptRequirement)
+            ] + [cwl.InlineJavascriptRequirement(expression_lib)]
+
+
+def add_SubworkflowFeatureRequirement(workflow: cwl.Workflow) -> None:
+    """Allow sub-workflows as steps of the workflow."""
+    if not workflow.requirements:
+        workflow.requirements = [cwl.SubworkflowFeatureRequirement()]
+    elif not any(
+        isinstance(req, cwl.SubworkflowFeatureRequirement)
+        for req in workflow.requirements
+    ):
+        workflow.requirements.append(cwl.SubworkflowFeatureRequirement())
+
+
 def traverse_step(
     step: cwl.WorkflowStep,
     parent: cwl.Workflow,
@@ -1703,6 +1723,28 @@ def traverse_step(
     step_id = step.id.split("#")[-1]
     if isinstance(step.run, cwl.CommandLineTool):
         step.run = expand_stream_shortcuts(step.run)
+    if isinstance(step.run, cwl.Workflow) or (
+        isinstance(step.run, cwl.CommandLineTool) and step.scatter
+    ):
+        # The expressions of a tool are evaluated for each of the jobs of a
+        # scattered step
+        process = copy.deepcopy(step.run)
+        inherit_expressionLib(process, [parent, step])
+        if not process.id or process.id.startswith("_:") or "#" in process.id:
+            # The identifiers of an inline process start with those of its parents
+            prefix = f"{step.id}/run/"
+            if process.id and "#" in process.id:
+                prefix = f"{process.id}/"
+            process.id = f"_:{uuid.uuid4()}"
+            cwl_utils.expression_refactor.rename_prefix(
+                process, prefix, f"{process.id}#"
+            )
+        process, modified = traverse(
+            process, replace_etool, False, skip_command_line1, skip_command_line2
+        )
+        if modified:
+            step.run = process
+            add_SubworkflowFeatureRequirement(parent)
     original_process = copy.deepcopy(step.run)
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 720ad64..7ef19a7 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1588,13 +1588,7 @@ def extract_outputEvals(
         steps=sub_wf_steps,
         cwlVersion=parent.cwlVersion,
     )
-    if not parent.requirements:
-        parent.requirements = [cwl.SubworkflowFeatureRequirement()]
-    elif not any(
-        isinstance(req, cwl.SubworkflowFeatureRequirement)
-        for req in parent.requirements
-    ):
-        parent.requirements.append(cwl.SubworkflowFeatureRequirement())
+    add_SubworkflowFeatureRequirement(parent)
 
 
 def replace_step_clt_expr_with_etool(
@@ -1807,6 +1801,32 @@ def generate_etool_from_expr2(
     )
 
 
+def inherit_expressionLib(
+    process: cwl.CommandLineTool | cwl.Workflow,
+    parents: list[cwl.Workflow | cwl.WorkflowStep],
+) -> None:
+    """Give the process the expressionLib of its parents, if it has none of its own."""
+    if cwl_utils.expression_refactor.find_expressionLib([process]) is None:
+        expression_lib = cwl_utils.expression_refactor.find_expressionLib(parents)
+        if expression_lib is not None:
+            process.requirements = [
+                req
+                for req in process.requirements or []
+                if not isinstance(req, cwl.InlineJavascriptRequirement)
+            ] + [cwl.InlineJavascriptRequirement(expression_lib)]
+
+
+def add_SubworkflowFeatureRequirement(workflow: cwl.Workflow) -> None:
+    """Allow sub-workflows as steps of the workflow."""
+    if not workflow.requirements:
+        workflow.requirements = [cwl.SubworkflowFeatureRequirement()]
+    elif not any(
+        isinstance(req, cwl.SubworkflowFeatureRequirement)
+        for req in workflow.requirements
+    ):
+        workflow.requirements.append(cwl.SubworkflowFeatureRequirement())
+
+
 def traverse_step(
     step: cwl.WorkflowStep,
     parent: cwl.Workflow,
@@ -1822,6 +1842,28 @@ def traverse_step(
     step_id = step.id.split("#")[-1]
     if isinstance(step.run, cwl.CommandLineTool):
         step.run = expand_stream_shortcuts(step.run)
+    if isinstance(step.run, cwl.Workflow) or (
+        isinstance(step.run, cwl.CommandLineTool) and (step.scatter or step.when)
+    ):
+        # The expressions of a tool are evaluated for each of the jobs of a
+        # scattered step, and only for the jobs that are not skipped
+        process = copy.deepcopy(step.run)
+        inherit_expressionLib(process, [parent, step])
+        if not process.id or process.id.startswith("_:") or "#" in process.id:
+            # The identifiers of an inline process start with those of its parents
+            prefix = f"{step.id}/run/"
+            if process.id and "#" in process.id:
+                prefix = f"{process.id}/"
+            process.id = f"_:{uuid.uuid4()}"
+            cwl_utils.expression_refactor.rename_prefix(
+                process, prefix, f"{process.id}#"
+            )
+        process, modified = traverse(
+            process, replace_etool, False, skip_command_line1, skip_command_line2
+        )
+        if modified:
+            step.run = process
+            add_SubworkflowFeatureRequirement(parent)
     original_process = copy.deepcopy(step.run)
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 889ea08..ecd098a 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -14,7 +14,7 @@ from typing import Any, Protocol, cast, Literal, overload
 
 from ruamel.yaml.main import YAML
 from ruamel.yaml.scalarstring import walk_tree
-from schema_salad.runtime import save, LoadingOptions
+from schema_salad.runtime import save, LoadingOptions, Saveable
 
 from cwl_utils import (
     cwl_v1_0_expression_refactor,
@@ -582,6 +582,23 @@ def process_CommandLineTool_output(
             )
 
 
+def rename_prefix(node: Any, old: str, new: str) -> Any:
+    """Give the identifiers (and references) that start with the old prefix the new one."""
+    match node:
+        case str():
+            return new + node[len(old) :] if node.startswith(old) else node
+        case MutableSequence():
+            node[:] = [rename_prefix(item, old, new) for item in node]
+        case MutableMapping():
+            for key in node:
+                node[key] = rename_prefix(node[key], old, new)
+        case Saveable():
+            for key, value in vars(node).items():
+                if key not in ("extension_fields", "loadingOptions"):
+                    setattr(node, key, rename_prefix(value, old, new))
+    return node
+
+
 def remove_JSReq(
     process: CommandLineTool | WorkflowStep | Workflow,
     skip_command_line1: bool,
-- 
2.43.0


From 2a8dc16b4eafd05138dcb1391d4178e8865a5bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 087/121] fix: expressions in requirements of workflows and
 steps are refactored for their processes

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py |  1 +
 src/cwl_utils/cwl_v1_1_expression_refactor.py |  1 +
 src/cwl_utils/cwl_v1_2_expression_refactor.py |  1 +
 src/cwl_utils/expression_refactor.py          | 36 +++++++++++++++++++
 4 files changed, 39 insertions(+)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index b7db293..5f410b6 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1955,6 +1955,7 @@ def traverse_workflow(
             )
             if step_modified:
                 modified = True
+    cwl_utils.expression_refactor.push_down_requirements(workflow)
     for step in workflow.steps:
         if not step.id.startswith("_expression"):
             step_modified = traverse_step(
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index e673366..802d7a9 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1965,6 +1965,7 @@ def traverse_workflow(
             )
             if step_modified:
                 modified = True
+    cwl_utils.expression_refactor.push_down_requirements(workflow)
     for step in workflow.steps:
         if not step.id.startswith("_expression"):
             step_modified = traverse_step(
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 7ef19a7..b06abdf 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -2157,6 +2157,7 @@ def traverse_workflow(
             )
             if step_modified:
                 modified = True
+    cwl_utils.expression_refactor.push_down_requirements(workflow)
     for step in workflow.steps:
         if not step.id.startswith("_expression"):
             step_modified = traverse_step(
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index ecd098a..cc4c9b2 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -5,6 +5,7 @@
 
 import argparse
 import copy
+import json
 import logging
 import shutil
 import sys
@@ -22,6 +23,7 @@ from cwl_utils import (
     cwl_v1_2_expression_refactor,
 )
 from cwl_utils.errors import WorkflowException
+from cwl_utils.expression import needs_parsing
 from cwl_utils.loghandler import _logger as _cwlutilslogger
 from cwl_utils.parser import (
     cwl_v1_0,
@@ -599,6 +601,40 @@ def rename_prefix(node: Any, old: str, new: str) -> Any:
     return node
 
 
+def push_down_requirements(workflow: Workflow) -> None:
+    """
+    Move the requirements with expressions to the processes that they are for.
+
+    These expressions are about the inputs of the processes, not of the workflow.
+    """
+    kinds = (EnvVarRequirement, InitialWorkDirRequirement, ResourceRequirement)
+
+    def has_expression(req: Any) -> bool:
+        return isinstance(req, kinds) and needs_parsing(json.dumps(save(req)))
+
+    def has_kind(requirements: Any, req: Any) -> bool:
+        return any(isinstance(other, type(req)) for other in requirements or [])
+
+    workflow_reqs = [req for req in workflow.requirements or [] if has_expression(req)]
+    for step in workflow.steps:
+        step_reqs = [req for req in step.requirements or [] if has_expression(req)]
+        for req in step_reqs + [
+            req for req in workflow_reqs if not has_kind(step.requirements, req)
+        ]:
+            if isinstance(
+                step.run, CommandLineTool | Workflow
+            ) and not has_kind(step.run.requirements, req):
+                step.run.requirements = list(step.run.requirements or []) + [
+                    copy.deepcopy(req)
+                ]
+        if step_reqs:
+            step.requirements = [x for x in step.requirements if x not in step_reqs]
+    if workflow_reqs:
+        workflow.requirements = [
+            x for x in workflow.requirements if x not in workflow_reqs
+        ]
+
+
 def remove_JSReq(
     process: CommandLineTool | WorkflowStep | Workflow,
     skip_command_line1: bool,
-- 
2.43.0


From 7e55fed27ee0f2376bc06695cda31099cfbd8b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:34 +0000
Subject: [PATCH 088/121] fix: references to runtime are not refactored

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 8 +++++++-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 8 +++++++-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 5f410b6..ce03363 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -129,7 +129,13 @@ def get_expression(
             requirements=[],
             outdir="",
             tmpdir="",
-            resources={},
+            resources={
+                "cores": runtime["cores"],
+                "exitCode": 0,
+                "outdirSize": runtime["outdirSize"],
+                "ram": runtime["ram"],
+                "tmpdirSize": runtime["tmpdirSize"],
+            },
         )
     except (WorkflowException, JavascriptException):
         if single:
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 802d7a9..4dac34a 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -136,7 +136,13 @@ def get_expression(
             requirements=[],
             outdir="",
             tmpdir="",
-            resources={},
+            resources={
+                "cores": runtime["cores"],
+                "exitCode": 0,
+                "outdirSize": runtime["outdirSize"],
+                "ram": runtime["ram"],
+                "tmpdirSize": runtime["tmpdirSize"],
+            },
         )
     except (WorkflowException, JavascriptException):
         if single:
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index b06abdf..2cf65a0 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -135,7 +135,13 @@ def get_expression(
             requirements=[],
             outdir="",
             tmpdir="",
-            resources={},
+            resources={
+                "cores": runtime["cores"],
+                "exitCode": 0,
+                "outdirSize": runtime["outdirSize"],
+                "ram": runtime["ram"],
+                "tmpdirSize": runtime["tmpdirSize"],
+            },
         )
     except (WorkflowException, JavascriptException):
         if single:
-- 
2.43.0


From 4cb8375f7421779857fa89dec69882219ba8ef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:58 +0000
Subject: [PATCH 089/121] fix: steps generated by the expression refactoring
 have different identifiers

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 20 ++++++++++++++++++
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 20 ++++++++++++++++++
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 21 +++++++++++++++++++
 3 files changed, 61 insertions(+)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index ce03363..f8a2ed1 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1001,6 +1001,7 @@ def process_level_reqs(
                         etool_id = "_expression_{}_EnvVarRequirement_{}".format(
                             step_name, env_index
                         )
+                        etool_id = unique_step_id(parent, etool_id)
                         replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
@@ -1025,6 +1026,7 @@ def process_level_reqs(
                         etool_id = "_expression_{}_ResourceRequirement_{}".format(
                             step_name, attr
                         )
+                        etool_id = unique_step_id(parent, etool_id)
                         replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
@@ -1055,6 +1057,7 @@ def process_level_reqs(
                     etool_id = "_expression_{}_InitialWorkDirRequirement".format(
                         step_name
                     )
+                    etool_id = unique_step_id(parent, etool_id)
                     replace_clt_hintreq_expr_with_etool(
                         expression,
                         etool_id,
@@ -1093,6 +1096,7 @@ def process_level_reqs(
                         etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                             step_name, listing_index
                         )
+                        etool_id = unique_step_id(parent, etool_id)
                         replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
@@ -1129,6 +1133,7 @@ def process_level_reqs(
                                     step_name, name
                                 )
                             )
+                            etool_id = unique_step_id(parent, etool_id)
                             replace_clt_hintreq_expr_with_etool(
                                 expression,
                                 etool_id,
@@ -1207,6 +1212,7 @@ def traverse_CommandLineTool(
                     etool_id = f"_expression_{step_id}{inp_id}"
                     target_type = ["null", "Any"]
                     target = cwl.InputParameter(id=None, type_=target_type)
+                    etool_id = unique_step_id(parent, etool_id)
                     replace_step_clt_expr_with_etool(
                         expression,
                         etool_id,
@@ -1242,6 +1248,7 @@ def traverse_CommandLineTool(
                     etool_id = f"_expression_{step_id}{inp_id}"
                     target_type = ["null", "Any"]
                     target = cwl.InputParameter(id=None, type_=target_type)
+                    etool_id = unique_step_id(parent, etool_id)
                     replace_step_clt_expr_with_etool(
                         expression,
                         etool_id,
@@ -1274,6 +1281,7 @@ def traverse_CommandLineTool(
                 etool_id = f"_expression_{step_id}{inp_id}"
                 target_type = "string"
                 target = cwl.InputParameter(id=None, type_=target_type)
+                etool_id = unique_step_id(parent, etool_id)
                 replace_step_clt_expr_with_etool(
                     expression,
                     etool_id,
@@ -1311,6 +1319,7 @@ def traverse_CommandLineTool(
                     "${if (self === null) { return null; } " + expression.strip()[2:]
                 )
                 target = cwl.InputParameter(id=None, type_=value_type)
+                etool_id = unique_step_id(parent, etool_id)
                 replace_step_clt_expr_with_etool(
                     expression,
                     etool_id,
@@ -1348,6 +1357,7 @@ def traverse_CommandLineTool(
                         cwl.CommandInputArraySchema(items="string", type_="array"),
                     ]
                     target = cwl.InputParameter(id=None, type_=glob_target_type)
+                    etool_id = unique_step_id(parent, etool_id)
                     replace_step_clt_expr_with_etool(
                         expression,
                         etool_id,
@@ -1680,6 +1690,15 @@ def generate_etool_from_expr2(
     )
 
 
+def unique_step_id(workflow: cwl.Workflow, step_id: str) -> str:
+    """Find an identifier that no other step of the workflow has."""
+    step_ids = [step.id.split("#")[-1] for step in workflow.steps]
+    candidate, index = step_id, 2
+    while candidate in step_ids:
+        candidate, index = f"{step_id}_{index}", index + 1
+    return candidate
+
+
 def inherit_expressionLib(
     process: cwl.CommandLineTool | cwl.Workflow,
     parents: list[cwl.Workflow | cwl.WorkflowStep],
@@ -1789,6 +1808,7 @@ def traverse_step(
                                 step.run, _DEFAULT_CWL_VERSION, expr_lib
                             )
                         )
+                etool_id = unique_step_id(parent, etool_id)
                 replace_step_valueFrom_expr_with_etool(
                     expression,
                     etool_id,
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 4dac34a..7d62a49 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1010,6 +1010,7 @@ def process_level_reqs(
                         etool_id = "_expression_{}_EnvVarRequirement_{}".format(
                             step_name, env_index
                         )
+                        etool_id = unique_step_id(parent, etool_id)
                         replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
@@ -1034,6 +1035,7 @@ def process_level_reqs(
                         etool_id = "_expression_{}_ResourceRequirement_{}".format(
                             step_name, attr
                         )
+                        etool_id = unique_step_id(parent, etool_id)
                         replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
@@ -1064,6 +1066,7 @@ def process_level_reqs(
                     etool_id = "_expression_{}_InitialWorkDirRequirement".format(
                         step_name
                     )
+                    etool_id = unique_step_id(parent, etool_id)
                     replace_clt_hintreq_expr_with_etool(
                         expression,
                         etool_id,
@@ -1102,6 +1105,7 @@ def process_level_reqs(
                         etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                             step_name, listing_index
                         )
+                        etool_id = unique_step_id(parent, etool_id)
                         replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
@@ -1138,6 +1142,7 @@ def process_level_reqs(
                                     step_name, name
                                 )
                             )
+                            etool_id = unique_step_id(parent, etool_id)
                             replace_clt_hintreq_expr_with_etool(
                                 expression,
                                 etool_id,
@@ -1216,6 +1221,7 @@ def traverse_CommandLineTool(
                     etool_id = f"_expression_{step_id}{inp_id}"
                     target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
+                    etool_id = unique_step_id(parent, etool_id)
                     replace_step_clt_expr_with_etool(
                         expression,
                         etool_id,
@@ -1251,6 +1257,7 @@ def traverse_CommandLineTool(
                     etool_id = f"_expression_{step_id}{inp_id}"
                     target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
+                    etool_id = unique_step_id(parent, etool_id)
                     replace_step_clt_expr_with_etool(
                         expression,
                         etool_id,
@@ -1283,6 +1290,7 @@ def traverse_CommandLineTool(
                 etool_id = f"_expression_{step_id}{inp_id}"
                 target_type = "string"
                 target = cwl.WorkflowInputParameter(id=None, type_=target_type)
+                etool_id = unique_step_id(parent, etool_id)
                 replace_step_clt_expr_with_etool(
                     expression,
                     etool_id,
@@ -1320,6 +1328,7 @@ def traverse_CommandLineTool(
                     "${if (self === null) { return null; } " + expression.strip()[2:]
                 )
                 target = cwl.WorkflowInputParameter(id=None, type_=value_type)
+                etool_id = unique_step_id(parent, etool_id)
                 replace_step_clt_expr_with_etool(
                     expression,
                     etool_id,
@@ -1357,6 +1366,7 @@ def traverse_CommandLineTool(
                         cwl.CommandInputArraySchema(items="string", type_="array"),
                     ]
                     target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
+                    etool_id = unique_step_id(parent, etool_id)
                     replace_step_clt_expr_with_etool(
                         expression,
                         etool_id,
@@ -1688,6 +1698,15 @@ def generate_etool_from_expr2(
     )
 
 
+def unique_step_id(workflow: cwl.Workflow, step_id: str) -> str:
+    """Find an identifier that no other step of the workflow has."""
+    step_ids = [step.id.split("#")[-1] for step in workflow.steps]
+    candidate, index = step_id, 2
+    while candidate in step_ids:
+        candidate, index = f"{step_id}_{index}", index + 1
+    return candidate
+
+
 def inherit_expressionLib(
     process: cwl.CommandLineTool | cwl.Workflow,
     parents: list[cwl.Workflow | cwl.WorkflowStep],
@@ -1797,6 +1816,7 @@ def traverse_step(
                                 step.run, _DEFAULT_CWL_VERSION, expr_lib
                             )
                         )
+                etool_id = unique_step_id(parent, etool_id)
                 replace_step_valueFrom_expr_with_etool(
                     expression,
                     etool_id,
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 2cf65a0..d59b02b 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1125,6 +1125,7 @@ def process_level_reqs(
                         etool_id = "_expression_{}_EnvVarRequirement_{}".format(
                             step_name, env_index
                         )
+                        etool_id = unique_step_id(parent, etool_id)
                         replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
@@ -1149,6 +1150,7 @@ def process_level_reqs(
                         etool_id = "_expression_{}_ResourceRequirement_{}".format(
                             step_name, attr
                         )
+                        etool_id = unique_step_id(parent, etool_id)
                         replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
@@ -1179,6 +1181,7 @@ def process_level_reqs(
                     etool_id = "_expression_{}_InitialWorkDirRequirement".format(
                         step_name
                     )
+                    etool_id = unique_step_id(parent, etool_id)
                     replace_clt_hintreq_expr_with_etool(
                         expression,
                         etool_id,
@@ -1217,6 +1220,7 @@ def process_level_reqs(
                         etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                             step_name, listing_index
                         )
+                        etool_id = unique_step_id(parent, etool_id)
                         replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
@@ -1253,6 +1257,7 @@ def process_level_reqs(
                                     step_name, name
                                 )
                             )
+                            etool_id = unique_step_id(parent, etool_id)
                             replace_clt_hintreq_expr_with_etool(
                                 expression,
                                 etool_id,
@@ -1331,6 +1336,7 @@ def traverse_CommandLineTool(
                     etool_id = f"_expression_{step_id}{inp_id}"
                     target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
+                    etool_id = unique_step_id(parent, etool_id)
                     replace_step_clt_expr_with_etool(
                         expression,
                         etool_id,
@@ -1366,6 +1372,7 @@ def traverse_CommandLineTool(
                     etool_id = f"_expression_{step_id}{inp_id}"
                     target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
+                    etool_id = unique_step_id(parent, etool_id)
                     replace_step_clt_expr_with_etool(
                         expression,
                         etool_id,
@@ -1398,6 +1405,7 @@ def traverse_CommandLineTool(
                 etool_id = f"_expression_{step_id}{inp_id}"
                 target_type = "string"
                 target = cwl.WorkflowInputParameter(id=None, type_=target_type)
+                etool_id = unique_step_id(parent, etool_id)
                 replace_step_clt_expr_with_etool(
                     expression,
                     etool_id,
@@ -1435,6 +1443,7 @@ def traverse_CommandLineTool(
                     "${if (self === null) { return null; } " + expression.strip()[2:]
                 )
                 target = cwl.WorkflowInputParameter(id=None, type_=value_type)
+                etool_id = unique_step_id(parent, etool_id)
                 replace_step_clt_expr_with_etool(
                     expression,
                     etool_id,
@@ -1472,6 +1481,7 @@ def traverse_CommandLineTool(
                         cwl.CommandInputArraySchema(items="string", type_="array"),
                     ]
                     target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
+                    etool_id = unique_step_id(parent, etool_id)
                     replace_step_clt_expr_with_etool(
                         expression,
                         etool_id,
@@ -1807,6 +1817,15 @@ def generate_etool_from_expr2(
     )
 
 
+def unique_step_id(workflow: cwl.Workflow, step_id: str) -> str:
+    """Find an identifier that no other step of the workflow has."""
+    step_ids = [step.id.split("#")[-1] for step in workflow.steps]
+    candidate, index = step_id, 2
+    while candidate in step_ids:
+        candidate, index = f"{step_id}_{index}", index + 1
+    return candidate
+
+
 def inherit_expressionLib(
     process: cwl.CommandLineTool | cwl.Workflow,
     parents: list[cwl.Workflow | cwl.WorkflowStep],
@@ -1916,6 +1935,7 @@ def traverse_step(
                                 step.run, _DEFAULT_CWL_VERSION, expr_lib
                             )
                         )
+                etool_id = unique_step_id(parent, etool_id)
                 replace_step_valueFrom_expr_with_etool(
                     expression,
                     etool_id,
@@ -2086,6 +2106,7 @@ def replace_step_when_expr_with_etool(
     if not step.id:
         raise WorkflowException(f"Missing id from {step}.")
     etool_id = "_when_expression_{}".format(step.id.split("#")[-1])
+    etool_id = unique_step_id(workflow, etool_id)
     etool_inputs = workflow_step_to_WorkflowInputParameters(original_step_ins)
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
-- 
2.43.0


From 03781623ca623cd3a9e515b599c2632e88abbdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:13 +0000
Subject: [PATCH 090/121] fix: refactored expressions see the contents of Files

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 10 ++++++++
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 23 ++++++++++++++++++-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 23 ++++++++++++++++++-
 3 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index f8a2ed1..35827b5 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -179,6 +179,11 @@ def etool_to_cltool(
                 format=inp.format,
                 default=inp.default,
                 type_=inp.type_,
+                inputBinding=(
+                    cwl.CommandLineBinding(loadContents=True)
+                    if inp.inputBinding and inp.inputBinding.loadContents
+                    else None
+                ),
                 extension_fields=inp.extension_fields,
                 loadingOptions=inp.loadingOptions,
             )
@@ -1603,6 +1608,11 @@ def cltool_inputs_to_etool_inputs(
                     format=clt_inp.format,
                     default=clt_inp.default,
                     type_=clt_inp.type_,
+                    inputBinding=(
+                        cwl.CommandLineBinding(loadContents=True)
+                        if clt_inp.inputBinding and clt_inp.inputBinding.loadContents
+                        else None
+                    ),
                     extension_fields=clt_inp.extension_fields,
                     loadingOptions=clt_inp.loadingOptions,
                 )
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 7d62a49..5b0ce48 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -186,6 +186,13 @@ def etool_to_cltool(
                 format=inp.format,
                 default=inp.default,
                 type_=inp.type_,
+                inputBinding=(
+                    cwl.CommandLineBinding(loadContents=True)
+                    if inp.inputBinding and inp.inputBinding.loadContents
+                    else None
+                ),
+                loadContents=inp.loadContents,
+                loadListing=inp.loadListing,
                 extension_fields=inp.extension_fields,
                 loadingOptions=inp.loadingOptions,
             )
@@ -1449,7 +1456,14 @@ def extract_outputEvals(
             expression, outp, False, self_type, [parent, step, clt]
         )
         if outp.outputBinding.loadContents:
-            etool.inputs[0].loadContents = True
+            if replace_etool:
+                etool.inputs[0].type_ = cwl.CommandInputArraySchema(
+                    items="File",
+                    type_="array",
+                    inputBinding=cwl.CommandLineBinding(loadContents=True),
+                )
+            else:
+                etool.inputs[0].loadContents = True
         clt_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
             clt, _DEFAULT_CWL_VERSION
         )
@@ -1607,6 +1621,13 @@ def cltool_inputs_to_etool_inputs(
                     format=clt_inp.format,
                     default=clt_inp.default,
                     type_=clt_inp.type_,
+                    inputBinding=(
+                        cwl.InputBinding(loadContents=True)
+                        if clt_inp.inputBinding and clt_inp.inputBinding.loadContents
+                        else None
+                    ),
+                    loadContents=clt_inp.loadContents,
+                    loadListing=clt_inp.loadListing,
                     extension_fields=clt_inp.extension_fields,
                     loadingOptions=clt_inp.loadingOptions,
                 )
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index d59b02b..5883acc 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -185,6 +185,13 @@ def etool_to_cltool(
                 format=inp.format,
                 default=inp.default,
                 type_=inp.type_,
+                inputBinding=(
+                    cwl.CommandLineBinding(loadContents=True)
+                    if inp.inputBinding and inp.inputBinding.loadContents
+                    else None
+                ),
+                loadContents=inp.loadContents,
+                loadListing=inp.loadListing,
                 extension_fields=inp.extension_fields,
                 loadingOptions=inp.loadingOptions,
             )
@@ -1564,7 +1571,14 @@ def extract_outputEvals(
             expression, outp, False, self_type, [parent, step, clt]
         )
         if outp.outputBinding.loadContents:
-            etool.inputs[0].loadContents = True
+            if replace_etool:
+                etool.inputs[0].type_ = cwl.CommandInputArraySchema(
+                    items="File",
+                    type_="array",
+                    inputBinding=cwl.CommandLineBinding(loadContents=True),
+                )
+            else:
+                etool.inputs[0].loadContents = True
         clt_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
             clt, _DEFAULT_CWL_VERSION
         )
@@ -1722,6 +1736,13 @@ def cltool_inputs_to_etool_inputs(
                     format=clt_inp.format,
                     default=clt_inp.default,
                     type_=clt_inp.type_,
+                    inputBinding=(
+                        cwl.InputBinding(loadContents=True)
+                        if clt_inp.inputBinding and clt_inp.inputBinding.loadContents
+                        else None
+                    ),
+                    loadContents=clt_inp.loadContents,
+                    loadListing=clt_inp.loadListing,
                     extension_fields=clt_inp.extension_fields,
                     loadingOptions=clt_inp.loadingOptions,
                 )
-- 
2.43.0


From 088525fbe400704580a8fe2a7ba54969745dd016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:03 +0000
Subject: [PATCH 091/121] fix: requirements for the remaining expressions are
 kept

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 11 ++++-----
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 11 ++++-----
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 11 ++++-----
 src/cwl_utils/expression_refactor.py          | 24 +++++++++++++++++--
 4 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 35827b5..3a0a316 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -2003,14 +2003,13 @@ def traverse_workflow(
         modified = True
     if process_workflow_reqs_and_hints(workflow, replace_etool):
         modified = True
-    if workflow.requirements:
+    cwl_utils.expression_refactor.remove_JSReq(workflow, False)
+    if workflow.requirements and not any(
+        inp.valueFrom for step in workflow.steps for inp in step.in_
+    ):
         workflow.requirements[:] = [
             x
             for x in workflow.requirements
-            if not isinstance(
-                x, (cwl.InlineJavascriptRequirement, cwl.StepInputExpressionRequirement)
-            )
+            if not isinstance(x, cwl.StepInputExpressionRequirement)
         ]
-    else:
-        workflow.requirements = None
     return workflow, modified
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 5b0ce48..a46e60c 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -2024,14 +2024,13 @@ def traverse_workflow(
         modified = True
     if process_workflow_reqs_and_hints(workflow, replace_etool):
         modified = True
-    if workflow.requirements:
+    cwl_utils.expression_refactor.remove_JSReq(workflow, False)
+    if workflow.requirements and not any(
+        inp.valueFrom for step in workflow.steps for inp in step.in_
+    ):
         workflow.requirements[:] = [
             x
             for x in workflow.requirements
-            if not isinstance(
-                x, (cwl.InlineJavascriptRequirement, cwl.StepInputExpressionRequirement)
-            )
+            if not isinstance(x, cwl.StepInputExpressionRequirement)
         ]
-    else:
-        workflow.requirements = None
     return workflow, modified
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 5883acc..e59b334 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -2217,14 +2217,13 @@ def traverse_workflow(
         modified = True
     if process_workflow_reqs_and_hints(workflow, replace_etool):
         modified = True
-    if workflow.requirements:
+    cwl_utils.expression_refactor.remove_JSReq(workflow, False)
+    if workflow.requirements and not any(
+        inp.valueFrom for step in workflow.steps for inp in step.in_
+    ):
         workflow.requirements[:] = [
             x
             for x in workflow.requirements
-            if not isinstance(
-                x, (cwl.InlineJavascriptRequirement, cwl.StepInputExpressionRequirement)
-            )
+            if not isinstance(x, cwl.StepInputExpressionRequirement)
         ]
-    else:
-        workflow.requirements = None
     return workflow, modified
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index cc4c9b2..86a87e3 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -23,7 +23,8 @@ from cwl_utils import (
     cwl_v1_2_expression_refactor,
 )
 from cwl_utils.errors import WorkflowException
-from cwl_utils.expression import needs_parsing
+from cwl_utils.expression import needs_parsing, scanner
+from cwl_utils.sandboxjs import param_re
 from cwl_utils.loghandler import _logger as _cwlutilslogger
 from cwl_utils.parser import (
     cwl_v1_0,
@@ -635,13 +636,32 @@ def push_down_requirements(workflow: Workflow) -> None:
         ]
 
 
+def needs_javascript(node: Any) -> bool:
+    """Find out if there are still JavaScript expressions in the given saved object."""
+    if isinstance(node, str):
+        while match := scanner(node):
+            expression = node[match[0] : match[1]]
+            if expression.startswith("${") or (
+                expression.startswith("$(")
+                and (".length" in expression or not param_re.match(expression[1:]))
+            ):
+                return True
+            node = node[match[1] :]
+        return False
+    if isinstance(node, MutableMapping):
+        return any(needs_javascript(value) for value in node.values())
+    return isinstance(node, MutableSequence) and any(map(needs_javascript, node))
+
+
 def remove_JSReq(
     process: CommandLineTool | WorkflowStep | Workflow,
     skip_command_line1: bool,
 ) -> None:
-    """Since the InlineJavascriptRequirement is longer needed, remove it."""
+    """Remove the InlineJavascriptRequirement, if it is no longer needed."""
     if skip_command_line1 and isinstance(process, CommandLineTool):
         return
+    if needs_javascript(save(process)):
+        return
     if process.hints:
         process.hints[:] = [
             hint
-- 
2.43.0


From 8a5598aafa751854d518f1e9c974be7ece4ef134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:57 +0000
Subject: [PATCH 092/121] fix: parameter references in valueFrom do not see the
 values of refactored expressions

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 227 ++++++++++--------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 227 ++++++++++--------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 226 +++++++++--------
 3 files changed, 374 insertions(+), 306 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 3a0a316..4fbc9ed 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -99,12 +99,16 @@ def get_command_line_binding(
 
 
 def get_expression(
-    string: str, inputs: CWLObjectType, self: CWLOutputType | None
+    string: str,
+    inputs: CWLObjectType,
+    self: CWLOutputType | None,
+    convert_references: bool = False,
 ) -> str | None:
     """
     Find and return a normalized CWL expression, if any.
 
-    CWL expressions in the $() form are converted to the ${} form.
+    CWL expressions in the $() form are converted to the ${} form, and so are
+    parameter references if requested.
     """
     if not needs_parsing(string):
         return None
@@ -121,40 +125,40 @@ def get_expression(
         outdirSize=0,
         tmpdirSize=0,
     )
-    try:
-        do_eval(
-            string,
-            inputs,
-            context=self,
-            requirements=[],
-            outdir="",
-            tmpdir="",
-            resources={
-                "cores": runtime["cores"],
-                "exitCode": 0,
-                "outdirSize": runtime["outdirSize"],
-                "ram": runtime["ram"],
-                "tmpdirSize": runtime["tmpdirSize"],
-            },
-        )
-    except (WorkflowException, JavascriptException):
-        if single:
-            # it is a CWL Expression in $() with no string interpolation
-            return "${return (" + stripped[2:-1] + "\n);}"
-        # then it is a string interpolation
-        return cast(
-            str,
-            interpolate(
-                scan=string,
-                rootvars=CWLParameterContext(
-                    inputs=inputs, self=self, runtime=runtime
-                ),
-                fullJS=True,
-                escaping_behavior=1,
-                convert_to_expression=True,
+    if not convert_references:
+        with suppress(WorkflowException, JavascriptException):
+            do_eval(
+                string,
+                inputs,
+                context=self,
+                requirements=[],
+                outdir="",
+                tmpdir="",
+                resources={
+                    "cores": runtime["cores"],
+                    "exitCode": 0,
+                    "outdirSize": runtime["outdirSize"],
+                    "ram": runtime["ram"],
+                    "tmpdirSize": runtime["tmpdirSize"],
+                },
+            )
+            return None
+    if single:
+        # it is a CWL Expression in $() with no string interpolation
+        return "${return (" + stripped[2:-1] + "\n);}"
+    # then it is a string interpolation
+    return cast(
+        str,
+        interpolate(
+            scan=string,
+            rootvars=CWLParameterContext(
+                inputs=inputs, self=self, runtime=runtime
             ),
-        )
-    return None
+            fullJS=True,
+            escaping_behavior=1,
+            convert_to_expression=True,
+        ),
+    )
 
 
 def get_inline_javascript_requirement(
@@ -1530,7 +1534,11 @@ def replace_step_clt_expr_with_etool(
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
     etool_input_ids = [inp.id for inp in etool_inputs]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if x.id in etool_input_ids]
+    wf_step_inputs[:] = [
+        x
+        for x in wf_step_inputs
+        if x.id in etool_input_ids or not x.id.startswith("_")
+    ]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1579,7 +1587,11 @@ def replace_clt_hintreq_expr_with_etool(
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
     etool_input_ids = [inp.id for inp in etool_inputs]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if x.id in etool_input_ids]
+    wf_step_inputs[:] = [
+        x
+        for x in wf_step_inputs
+        if x.id in etool_input_ids or not x.id.startswith("_")
+    ]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1735,6 +1747,25 @@ def add_SubworkflowFeatureRequirement(workflow: cwl.Workflow) -> None:
         workflow.requirements.append(cwl.SubworkflowFeatureRequirement())
 
 
+def example_self(
+    inp: cwl.WorkflowStepInput, step: cwl.WorkflowStep, parent: cwl.Workflow
+) -> Any:
+    """Produce a mock value for the given input of a step."""
+    if not inp.source:
+        return inp.default
+    examples = []
+    for source in aslist(inp.source):
+        with suppress(WorkflowException):
+            source_type = utils.type_for_source(parent, source.split("#")[-1])
+            if step.scatter and inp.id in aslist(step.scatter):
+                source_type = getattr(source_type, "items", source_type)
+            examples.append(example_input(source_type))
+    if isinstance(inp.source, MutableSequence):
+        return examples
+    return examples[0] if examples else None
+
+
+
 def traverse_step(
     step: cwl.WorkflowStep,
     parent: cwl.Workflow,
@@ -1774,72 +1805,64 @@ def traverse_step(
             add_SubworkflowFeatureRequirement(parent)
     original_process = copy.deepcopy(step.run)
     original_step_ins = copy.deepcopy(step.in_)
-    for inp in step.in_:
-        if inp.valueFrom:
-            self: Any
-            if not inp.source:
-                self = inp.default
-            else:
-                self = []
-                for source in aslist(inp.source):
-                    with suppress(WorkflowException):
-                        source_type = utils.type_for_source(
-                            parent, source.split("#")[-1]
-                        )
-                        if step.scatter and inp.id in aslist(step.scatter):
-                            source_type = getattr(source_type, "items", source_type)
-                        self.append(example_input(source_type))
-                if not isinstance(inp.source, MutableSequence):
-                    self = self[0] if self else None
-            expression = get_expression(inp.valueFrom, inputs, self)
-            if expression:
-                modified = True
-                etool_id = "_expression_{}_{}".format(step_id, inp.id.split("/")[-1])
-                # target.id = target.id.split('#')[-1]
-                if isinstance(original_process, cwl_utils.parser.ExpressionTool):
-                    reqs: list[cwl.ProcessRequirement] = []
-                    if original_process.hints:
-                        reqs.extend(original_process.hints)
-                    if original_process.requirements:
-                        reqs.extend(original_process.requirements)
-                    for req in reqs:
-                        if isinstance(
-                            req, cwl_utils.parser.InlineJavascriptRequirement
-                        ):
-                            break
-                    else:
-                        if not step.run.requirements:
-                            step.run.requirements = []
-                        expr_lib = cwl_utils.expression_refactor.find_expressionLib(
-                            [parent]
-                        )
-                        step.run.requirements.append(
-                            cwl_utils.expression_refactor.get_inline_javascript_requirement(
-                                step.run, _DEFAULT_CWL_VERSION, expr_lib
-                            )
+    value_froms = [
+        (inp, example_self(inp, step, parent)) for inp in step.in_ if inp.valueFrom
+    ]
+    # A reference must not see the value of an expression
+    has_expressions = any(
+        get_expression(inp.valueFrom, inputs, self) for inp, self in value_froms
+    )
+    for inp, self in value_froms:
+        expression = get_expression(inp.valueFrom, inputs, self, has_expressions)
+        if expression:
+            modified = True
+            etool_id = "_expression_{}_{}".format(step_id, inp.id.split("/")[-1])
+            # target.id = target.id.split('#')[-1]
+            if isinstance(original_process, cwl_utils.parser.ExpressionTool):
+                reqs: list[cwl.ProcessRequirement] = []
+                if original_process.hints:
+                    reqs.extend(original_process.hints)
+                if original_process.requirements:
+                    reqs.extend(original_process.requirements)
+                for req in reqs:
+                    if isinstance(
+                        req, cwl_utils.parser.InlineJavascriptRequirement
+                    ):
+                        break
+                else:
+                    if not step.run.requirements:
+                        step.run.requirements = []
+                    expr_lib = cwl_utils.expression_refactor.find_expressionLib(
+                        [parent]
+                    )
+                    step.run.requirements.append(
+                        cwl_utils.expression_refactor.get_inline_javascript_requirement(
+                            step.run, _DEFAULT_CWL_VERSION, expr_lib
                         )
-                etool_id = unique_step_id(parent, etool_id)
-                replace_step_valueFrom_expr_with_etool(
-                    expression,
-                    etool_id,
-                    parent,
-                    step,
-                    inp,
-                    original_step_ins,
-                    replace_etool,
-                )
-                # All of that happened already in the new step
-                for attr in (
-                    "default",
-                    "linkMerge",
-                    "loadContents",
-                    "loadListing",
-                    "pickValue",
-                    "valueFrom",
-                ):
-                    if hasattr(inp, attr):
-                        setattr(inp, attr, None)
-                inp.source = f"{etool_id}/result"
+                    )
+            etool_id = unique_step_id(parent, etool_id)
+            replace_step_valueFrom_expr_with_etool(
+                expression,
+                etool_id,
+                parent,
+                step,
+                inp,
+                original_step_ins,
+                replace_etool,
+            )
+            # All of that happened already in the new step
+            for attr in (
+                "default",
+                "linkMerge",
+                "loadContents",
+                "loadListing",
+                "pickValue",
+                "valueFrom",
+            ):
+                if hasattr(inp, attr):
+                    setattr(inp, attr, None)
+            inp.source = f"{etool_id}/result"
+
     # TODO: skip or special process for sub workflows?
     process_modified = process_level_reqs(
         original_process,
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index a46e60c..ad11bd6 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -106,12 +106,16 @@ def get_command_line_binding(
 
 
 def get_expression(
-    string: str, inputs: CWLObjectType, self: CWLOutputType | None
+    string: str,
+    inputs: CWLObjectType,
+    self: CWLOutputType | None,
+    convert_references: bool = False,
 ) -> str | None:
     """
     Find and return a normalized CWL expression, if any.
 
-    CWL expressions in the $() form are converted to the ${} form.
+    CWL expressions in the $() form are converted to the ${} form, and so are
+    parameter references if requested.
     """
     if not needs_parsing(string):
         return None
@@ -128,40 +132,40 @@ def get_expression(
         outdirSize=0,
         tmpdirSize=0,
     )
-    try:
-        do_eval(
-            string,
-            inputs,
-            context=self,
-            requirements=[],
-            outdir="",
-            tmpdir="",
-            resources={
-                "cores": runtime["cores"],
-                "exitCode": 0,
-                "outdirSize": runtime["outdirSize"],
-                "ram": runtime["ram"],
-                "tmpdirSize": runtime["tmpdirSize"],
-            },
-        )
-    except (WorkflowException, JavascriptException):
-        if single:
-            # it is a CWL Expression in $() with no string interpolation
-            return "${return (" + stripped[2:-1] + "\n);}"
-        # then it is a string interpolation
-        return cast(
-            str,
-            interpolate(
-                scan=string,
-                rootvars=CWLParameterContext(
-                    inputs=inputs, self=self, runtime=runtime
-                ),
-                fullJS=True,
-                escaping_behavior=1,
-                convert_to_expression=True,
+    if not convert_references:
+        with suppress(WorkflowException, JavascriptException):
+            do_eval(
+                string,
+                inputs,
+                context=self,
+                requirements=[],
+                outdir="",
+                tmpdir="",
+                resources={
+                    "cores": runtime["cores"],
+                    "exitCode": 0,
+                    "outdirSize": runtime["outdirSize"],
+                    "ram": runtime["ram"],
+                    "tmpdirSize": runtime["tmpdirSize"],
+                },
+            )
+            return None
+    if single:
+        # it is a CWL Expression in $() with no string interpolation
+        return "${return (" + stripped[2:-1] + "\n);}"
+    # then it is a string interpolation
+    return cast(
+        str,
+        interpolate(
+            scan=string,
+            rootvars=CWLParameterContext(
+                inputs=inputs, self=self, runtime=runtime
             ),
-        )
-    return None
+            fullJS=True,
+            escaping_behavior=1,
+            convert_to_expression=True,
+        ),
+    )
 
 
 def get_inline_javascript_requirement(
@@ -1543,7 +1547,11 @@ def replace_step_clt_expr_with_etool(
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
     etool_input_ids = [inp.id for inp in etool_inputs]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if x.id in etool_input_ids]
+    wf_step_inputs[:] = [
+        x
+        for x in wf_step_inputs
+        if x.id in etool_input_ids or not x.id.startswith("_")
+    ]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1592,7 +1600,11 @@ def replace_clt_hintreq_expr_with_etool(
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
     etool_input_ids = [inp.id for inp in etool_inputs]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if x.id in etool_input_ids]
+    wf_step_inputs[:] = [
+        x
+        for x in wf_step_inputs
+        if x.id in etool_input_ids or not x.id.startswith("_")
+    ]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1754,6 +1766,25 @@ def add_SubworkflowFeatureRequirement(workflow: cwl.Workflow) -> None:
         workflow.requirements.append(cwl.SubworkflowFeatureRequirement())
 
 
+def example_self(
+    inp: cwl.WorkflowStepInput, step: cwl.WorkflowStep, parent: cwl.Workflow
+) -> Any:
+    """Produce a mock value for the given input of a step."""
+    if not inp.source:
+        return inp.default
+    examples = []
+    for source in aslist(inp.source):
+        with suppress(WorkflowException):
+            source_type = utils.type_for_source(parent, source.split("#")[-1])
+            if step.scatter and inp.id in aslist(step.scatter):
+                source_type = getattr(source_type, "items", source_type)
+            examples.append(example_input(source_type))
+    if isinstance(inp.source, MutableSequence):
+        return examples
+    return examples[0] if examples else None
+
+
+
 def traverse_step(
     step: cwl.WorkflowStep,
     parent: cwl.Workflow,
@@ -1793,72 +1824,64 @@ def traverse_step(
             add_SubworkflowFeatureRequirement(parent)
     original_process = copy.deepcopy(step.run)
     original_step_ins = copy.deepcopy(step.in_)
-    for inp in step.in_:
-        if inp.valueFrom:
-            self: Any
-            if not inp.source:
-                self = inp.default
-            else:
-                self = []
-                for source in aslist(inp.source):
-                    with suppress(WorkflowException):
-                        source_type = utils.type_for_source(
-                            parent, source.split("#")[-1]
-                        )
-                        if step.scatter and inp.id in aslist(step.scatter):
-                            source_type = getattr(source_type, "items", source_type)
-                        self.append(example_input(source_type))
-                if not isinstance(inp.source, MutableSequence):
-                    self = self[0] if self else None
-            expression = get_expression(inp.valueFrom, inputs, self)
-            if expression:
-                modified = True
-                etool_id = "_expression_{}_{}".format(step_id, inp.id.split("/")[-1])
-                # target.id = target.id.split('#')[-1]
-                if isinstance(original_process, cwl_utils.parser.ExpressionTool):
-                    reqs: list[cwl.ProcessRequirement] = []
-                    if original_process.hints:
-                        reqs.extend(original_process.hints)
-                    if original_process.requirements:
-                        reqs.extend(original_process.requirements)
-                    for req in reqs:
-                        if isinstance(
-                            req, cwl_utils.parser.InlineJavascriptRequirement
-                        ):
-                            break
-                    else:
-                        if not step.run.requirements:
-                            step.run.requirements = []
-                        expr_lib = cwl_utils.expression_refactor.find_expressionLib(
-                            [parent]
-                        )
-                        step.run.requirements.append(
-                            cwl_utils.expression_refactor.get_inline_javascript_requirement(
-                                step.run, _DEFAULT_CWL_VERSION, expr_lib
-                            )
+    value_froms = [
+        (inp, example_self(inp, step, parent)) for inp in step.in_ if inp.valueFrom
+    ]
+    # A reference must not see the value of an expression
+    has_expressions = any(
+        get_expression(inp.valueFrom, inputs, self) for inp, self in value_froms
+    )
+    for inp, self in value_froms:
+        expression = get_expression(inp.valueFrom, inputs, self, has_expressions)
+        if expression:
+            modified = True
+            etool_id = "_expression_{}_{}".format(step_id, inp.id.split("/")[-1])
+            # target.id = target.id.split('#')[-1]
+            if isinstance(original_process, cwl_utils.parser.ExpressionTool):
+                reqs: list[cwl.ProcessRequirement] = []
+                if original_process.hints:
+                    reqs.extend(original_process.hints)
+                if original_process.requirements:
+                    reqs.extend(original_process.requirements)
+                for req in reqs:
+                    if isinstance(
+                        req, cwl_utils.parser.InlineJavascriptRequirement
+                    ):
+                        break
+                else:
+                    if not step.run.requirements:
+                        step.run.requirements = []
+                    expr_lib = cwl_utils.expression_refactor.find_expressionLib(
+                        [parent]
+                    )
+                    step.run.requirements.append(
+                        cwl_utils.expression_refactor.get_inline_javascript_requirement(
+                            step.run, _DEFAULT_CWL_VERSION, expr_lib
                         )
-                etool_id = unique_step_id(parent, etool_id)
-                replace_step_valueFrom_expr_with_etool(
-                    expression,
-                    etool_id,
-                    parent,
-                    step,
-                    inp,
-                    original_step_ins,
-                    replace_etool,
-                )
-                # All of that happened already in the new step
-                for attr in (
-                    "default",
-                    "linkMerge",
-                    "loadContents",
-                    "loadListing",
-                    "pickValue",
-                    "valueFrom",
-                ):
-                    if hasattr(inp, attr):
-                        setattr(inp, attr, None)
-                inp.source = f"{etool_id}/result"
+                    )
+            etool_id = unique_step_id(parent, etool_id)
+            replace_step_valueFrom_expr_with_etool(
+                expression,
+                etool_id,
+                parent,
+                step,
+                inp,
+                original_step_ins,
+                replace_etool,
+            )
+            # All of that happened already in the new step
+            for attr in (
+                "default",
+                "linkMerge",
+                "loadContents",
+                "loadListing",
+                "pickValue",
+                "valueFrom",
+            ):
+                if hasattr(inp, attr):
+                    setattr(inp, attr, None)
+            inp.source = f"{etool_id}/result"
+
     # TODO: skip or special process for sub workflows?
     process_modified = process_level_reqs(
         original_process,
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index e59b334..73ef8e8 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -105,12 +105,16 @@ def get_command_line_binding(
 
 
 def get_expression(
-    string: str, inputs: CWLObjectType, self: CWLOutputType | None
+    string: str,
+    inputs: CWLObjectType,
+    self: CWLOutputType | None,
+    convert_references: bool = False,
 ) -> str | None:
     """
     Find and return a normalized CWL expression, if any.
 
-    CWL expressions in the $() form are converted to the ${} form.
+    CWL expressions in the $() form are converted to the ${} form, and so are
+    parameter references if requested.
     """
     if not needs_parsing(string):
         return None
@@ -127,40 +131,40 @@ def get_expression(
         outdirSize=0,
         tmpdirSize=0,
     )
-    try:
-        do_eval(
-            string,
-            inputs,
-            context=self,
-            requirements=[],
-            outdir="",
-            tmpdir="",
-            resources={
-                "cores": runtime["cores"],
-                "exitCode": 0,
-                "outdirSize": runtime["outdirSize"],
-                "ram": runtime["ram"],
-                "tmpdirSize": runtime["tmpdirSize"],
-            },
-        )
-    except (WorkflowException, JavascriptException):
-        if single:
-            # it is a CWL Expression in $() with no string interpolation
-            return "${return (" + stripped[2:-1] + "\n);}"
-        # then it is a string interpolation
-        return cast(
-            str,
-            interpolate(
-                scan=string,
-                rootvars=CWLParameterContext(
-                    inputs=inputs, self=self, runtime=runtime
-                ),
-                fullJS=True,
-                escaping_behavior=2,
-                convert_to_expression=True,
+    if not convert_references:
+        with suppress(WorkflowException, JavascriptException):
+            do_eval(
+                string,
+                inputs,
+                context=self,
+                requirements=[],
+                outdir="",
+                tmpdir="",
+                resources={
+                    "cores": runtime["cores"],
+                    "exitCode": 0,
+                    "outdirSize": runtime["outdirSize"],
+                    "ram": runtime["ram"],
+                    "tmpdirSize": runtime["tmpdirSize"],
+                },
+            )
+            return None
+    if single:
+        # it is a CWL Expression in $() with no string interpolation
+        return "${return (" + stripped[2:-1] + "\n);}"
+    # then it is a string interpolation
+    return cast(
+        str,
+        interpolate(
+            scan=string,
+            rootvars=CWLParameterContext(
+                inputs=inputs, self=self, runtime=runtime
             ),
-        )
-    return None
+            fullJS=True,
+            escaping_behavior=2,
+            convert_to_expression=True,
+        ),
+    )
 
 
 def get_inline_javascript_requirement(
@@ -1658,7 +1662,11 @@ def replace_step_clt_expr_with_etool(
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
     etool_input_ids = [inp.id for inp in etool_inputs]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if x.id in etool_input_ids]
+    wf_step_inputs[:] = [
+        x
+        for x in wf_step_inputs
+        if x.id in etool_input_ids or not x.id.startswith("_")
+    ]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1707,7 +1715,11 @@ def replace_clt_hintreq_expr_with_etool(
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
     etool_input_ids = [inp.id for inp in etool_inputs]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if x.id in etool_input_ids]
+    wf_step_inputs[:] = [
+        x
+        for x in wf_step_inputs
+        if x.id in etool_input_ids or not x.id.startswith("_")
+    ]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1873,6 +1885,25 @@ def add_SubworkflowFeatureRequirement(workflow: cwl.Workflow) -> None:
         workflow.requirements.append(cwl.SubworkflowFeatureRequirement())
 
 
+def example_self(
+    inp: cwl.WorkflowStepInput, step: cwl.WorkflowStep, parent: cwl.Workflow
+) -> Any:
+    """Produce a mock value for the given input of a step."""
+    if not inp.source:
+        return inp.default
+    examples = []
+    for source in aslist(inp.source):
+        with suppress(WorkflowException):
+            source_type = utils.type_for_source(parent, source.split("#")[-1])
+            if step.scatter and inp.id in aslist(step.scatter):
+                source_type = getattr(source_type, "items", source_type)
+            examples.append(example_input(source_type))
+    if isinstance(inp.source, MutableSequence):
+        return examples
+    return examples[0] if examples else None
+
+
+
 def traverse_step(
     step: cwl.WorkflowStep,
     parent: cwl.Workflow,
@@ -1912,72 +1943,63 @@ def traverse_step(
             add_SubworkflowFeatureRequirement(parent)
     original_process = copy.deepcopy(step.run)
     original_step_ins = copy.deepcopy(step.in_)
-    for inp in step.in_:
-        if inp.valueFrom:
-            self: Any
-            if not inp.source:
-                self = inp.default
-            else:
-                self = []
-                for source in aslist(inp.source):
-                    with suppress(WorkflowException):
-                        source_type = utils.type_for_source(
-                            parent, source.split("#")[-1]
-                        )
-                        if step.scatter and inp.id in aslist(step.scatter):
-                            source_type = getattr(source_type, "items", source_type)
-                        self.append(example_input(source_type))
-                if not isinstance(inp.source, MutableSequence):
-                    self = self[0] if self else None
-            expression = get_expression(inp.valueFrom, inputs, self)
-            if expression:
-                modified = True
-                etool_id = "_expression_{}_{}".format(step_id, inp.id.split("/")[-1])
-                # target.id = target.id.split('#')[-1]
-                if isinstance(original_process, cwl_utils.parser.ExpressionTool):
-                    reqs: list[cwl.ProcessRequirement] = []
-                    if original_process.hints:
-                        reqs.extend(original_process.hints)
-                    if original_process.requirements:
-                        reqs.extend(original_process.requirements)
-                    for req in reqs:
-                        if isinstance(
-                            req, cwl_utils.parser.InlineJavascriptRequirement
-                        ):
-                            break
-                    else:
-                        if not step.run.requirements:
-                            step.run.requirements = []
-                        expr_lib = cwl_utils.expression_refactor.find_expressionLib(
-                            [parent]
-                        )
-                        step.run.requirements.append(
-                            cwl_utils.expression_refactor.get_inline_javascript_requirement(
-                                step.run, _DEFAULT_CWL_VERSION, expr_lib
-                            )
+    value_froms = [
+        (inp, example_self(inp, step, parent)) for inp in step.in_ if inp.valueFrom
+    ]
+    # A reference must not see the value of an expression
+    has_expressions = any(
+        get_expression(inp.valueFrom, inputs, self) for inp, self in value_froms
+    )
+    for inp, self in value_froms:
+        expression = get_expression(inp.valueFrom, inputs, self, has_expressions)
+        if expression:
+            modified = True
+            etool_id = "_expression_{}_{}".format(step_id, inp.id.split("/")[-1])
+            # target.id = target.id.split('#')[-1]
+            if isinstance(original_process, cwl_utils.parser.ExpressionTool):
+                reqs: list[cwl.ProcessRequirement] = []
+                if original_process.hints:
+                    reqs.extend(original_process.hints)
+                if original_process.requirements:
+                    reqs.extend(original_process.requirements)
+                for req in reqs:
+                    if isinstance(
+                        req, cwl_utils.parser.InlineJavascriptRequirement
+                    ):
+                        break
+                else:
+                    if not step.run.requirements:
+                        step.run.requirements = []
+                    expr_lib = cwl_utils.expression_refactor.find_expressionLib(
+                        [parent]
+                    )
+                    step.run.requirements.append(
+                        cwl_utils.expression_refactor.get_inline_javascript_requirement(
+                            step.run, _DEFAULT_CWL_VERSION, expr_lib
                         )
-                etool_id = unique_step_id(parent, etool_id)
-                replace_step_valueFrom_expr_with_etool(
-                    expression,
-                    etool_id,
-                    parent,
-                    step,
-                    inp,
-                    original_step_ins,
-                    replace_etool,
-                )
-                # All of that happened already in the new step
-                for attr in (
-                    "default",
-                    "linkMerge",
-                    "loadContents",
-                    "loadListing",
-                    "pickValue",
-                    "valueFrom",
-                ):
-                    if hasattr(inp, attr):
-                        setattr(inp, attr, None)
-                inp.source = f"{etool_id}/result"
+                    )
+            etool_id = unique_step_id(parent, etool_id)
+            replace_step_valueFrom_expr_with_etool(
+                expression,
+                etool_id,
+                parent,
+                step,
+                inp,
+                original_step_ins,
+                replace_etool,
+            )
+            # All of that happened already in the new step
+            for attr in (
+                "default",
+                "linkMerge",
+                "loadContents",
+                "loadListing",
+                "pickValue",
+                "valueFrom",
+            ):
+                if hasattr(inp, attr):
+                    setattr(inp, attr, None)
+            inp.source = f"{etool_id}/result"
     if step.when:
         expression = get_expression(string=step.when, inputs=inputs, self=None)
         if expression:
-- 
2.43.0


From a3d5a2ab6e2a4658af970f5da166d44723b23fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:26 +0000
Subject: [PATCH 093/121] fix: workflows with an identifier can be refactored

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 15 ++++++++++++++-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 15 ++++++++++++++-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 15 ++++++++++++++-
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 4fbc9ed..c728d2c 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -328,9 +328,22 @@ def traverse(
         case cwl.ExpressionTool() if replace_etool:
             return etool_to_cltool(process), True
         case cwl.Workflow():
-            return traverse_workflow(
+            prefix, local_prefix = f"{process.id}/", f"{process.id}".split("#")[0] + "#"
+            if "#" in prefix:
+                # The identifiers start with the identifier of the workflow
+                cwl_utils.expression_refactor.rename_prefix(
+                    process, prefix, local_prefix
+                )
+            result, modified = traverse_workflow(
                 process, replace_etool, skip_command_line1, skip_command_line2
             )
+            if "#" in prefix:
+                process_id = result.id
+                cwl_utils.expression_refactor.rename_prefix(
+                    result, local_prefix, prefix
+                )
+                result.id = process_id
+            return result, modified
         case _:
             return process, False
 
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index ad11bd6..2f97d3e 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -337,9 +337,22 @@ def traverse(
         case cwl.ExpressionTool() if replace_etool:
             return etool_to_cltool(process), True
         case cwl.Workflow():
-            return traverse_workflow(
+            prefix, local_prefix = f"{process.id}/", f"{process.id}".split("#")[0] + "#"
+            if "#" in prefix:
+                # The identifiers start with the identifier of the workflow
+                cwl_utils.expression_refactor.rename_prefix(
+                    process, prefix, local_prefix
+                )
+            result, modified = traverse_workflow(
                 process, replace_etool, skip_command_line1, skip_command_line2
             )
+            if "#" in prefix:
+                process_id = result.id
+                cwl_utils.expression_refactor.rename_prefix(
+                    result, local_prefix, prefix
+                )
+                result.id = process_id
+            return result, modified
         case _:
             return process, False
 
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 73ef8e8..01e858b 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -338,9 +338,22 @@ def traverse(
         case cwl.ExpressionTool() if replace_etool:
             return etool_to_cltool(process), True
         case cwl.Workflow():
-            return traverse_workflow(
+            prefix, local_prefix = f"{process.id}/", f"{process.id}".split("#")[0] + "#"
+            if "#" in prefix:
+                # The identifiers start with the identifier of the workflow
+                cwl_utils.expression_refactor.rename_prefix(
+                    process, prefix, local_prefix
+                )
+            result, modified = traverse_workflow(
                 process, replace_etool, skip_command_line1, skip_command_line2
             )
+            if "#" in prefix:
+                process_id = result.id
+                cwl_utils.expression_refactor.rename_prefix(
+                    result, local_prefix, prefix
+                )
+                result.id = process_id
+            return result, modified
         case _:
             return process, False
 
-- 
2.43.0


From 9ec6c598e9494e68a90b5a1dc9a8b6db415b040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:30 +0000
Subject: [PATCH 094/121] fix: a document that cannot be refactored does not
 prevent the others

---
 src/cwl_utils/expression_refactor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 86a87e3..152c9d3 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -697,10 +697,10 @@ def refactor(args: argparse.Namespace) -> int:
     yaml.preserve_quotes = True
     for document in args.inputs:
         _logger.info("Processing %s.", document)
-        with open(document) as doc_handle:
-            result = yaml.load(doc_handle)
-        uri = Path(document).resolve().as_uri()
         try:
+            with open(document, encoding="utf-8") as doc_handle:
+                result = yaml.load(doc_handle)
+            uri = Path(document).resolve().as_uri()
             match result["cwlVersion"]:
                 case "v1.0":
                     result, modified = cwl_v1_0_expression_refactor.traverse(
@@ -731,7 +731,8 @@ def refactor(args: argparse.Namespace) -> int:
                         "Sorry, %s is not a supported CWL version by this tool.",
                         result["cwlVersion"],
                     )
-                    return -1
+                    return_code = -1
+                    continue
             output = Path(args.dir) / Path(document).name
             if not modified:
                 if len(args.inputs) > 1:
@@ -759,7 +760,7 @@ def refactor(args: argparse.Namespace) -> int:
                     "#!/usr/bin/env cwl-runner\n"
                 )  # TODO: teach the codegen to do this?
                 yaml.dump(result_json, output_filehandle)
-        except WorkflowException as exc:
+        except Exception as exc:  # pylint: disable=broad-exception-caught
             return_code = 1
             _logger.exception("Skipping %s due to error.", document, exc_info=exc)
 
-- 
2.43.0


From 2658ab90d78951af4f15cb4fc0b7d6d9100d3ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:56 +0000
Subject: [PATCH 095/121] fix: refactoring does not copy the loaded documents
 for each expression

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 25 +++++++------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 27 +++++++-------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 35 +++++++++----------
 src/cwl_utils/expression_refactor.py          | 27 ++++++++++++--
 4 files changed, 67 insertions(+), 47 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index c728d2c..dbcd274 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -3,7 +3,6 @@
 # Copyright 2018-2021 Michael R. Crusoe
 """CWL Expression refactoring tool for CWL v1.0 ."""
 
-import copy
 import json
 import hashlib
 import uuid
@@ -42,7 +41,7 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
     for index, output in enumerate(process.outputs):
         if output.type_ in ("stdout", "stderr"):
             if result is process:
-                result = copy.deepcopy(process)
+                result = cwl_utils.expression_refactor.copy_of(process)
             stream_path = getattr(result, output.type_)
             if not stream_path:
                 stream_path = hashlib.sha1(  # nosec
@@ -67,7 +66,7 @@ def clean_type_ids(
     cwltype: ArraySchema | cwl.InputRecordSchema,
 ) -> ArraySchema | cwl.InputRecordSchema:
     """Simplify type identifiers."""
-    result = copy.deepcopy(cwltype)
+    result = cwl_utils.expression_refactor.copy_of(cwltype)
     if isinstance(result, ArraySchema):
         if isinstance(result.items, MutableSequence):
             for item in result.items:
@@ -309,7 +308,7 @@ def traverse(
                 id="main",
                 in_=step_inputs,
                 out=step_outputs,
-                run=copy.deepcopy(process),
+                run=cwl_utils.expression_refactor.copy_of(process),
             )
             workflow = cwl.Workflow(
                 inputs=wf_inputs,
@@ -725,9 +724,9 @@ def process_workflow_reqs_and_hints(
                                     replace_etool,
                                 )
                                 if envVarReq is None:
-                                    envVarReq = copy.deepcopy(req)
+                                    envVarReq = cwl_utils.expression_refactor.copy_of(req)
                                     prop_reqs += (cwl.EnvVarRequirement,)
-                                newEnvDef = copy.deepcopy(envDef)
+                                newEnvDef = cwl_utils.expression_refactor.copy_of(envDef)
                                 newEnvDef.envValue = f"$(inputs._envDef{index})"
                                 envVarReq.envDef[index] = newEnvDef
                                 generated_envVar_reqs.append((etool_id, index))
@@ -783,7 +782,7 @@ def process_workflow_reqs_and_hints(
                             )
                             prop_reqs += (cwl.InitialWorkDirRequirement,)
                     else:
-                        iwdr = copy.deepcopy(req)
+                        iwdr = cwl_utils.expression_refactor.copy_of(req)
                         for index, entry in enumerate(req.listing):
                             expression = get_expression(entry, inputs, None)
                             if expression:
@@ -1543,7 +1542,7 @@ def replace_step_clt_expr_with_etool(
         )
     else:
         etool = temp_etool
-    wf_step_inputs = copy.deepcopy(step.in_)
+    wf_step_inputs = cwl_utils.expression_refactor.copy_of(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
     etool_input_ids = [inp.id for inp in etool_inputs]
@@ -1596,7 +1595,7 @@ def replace_clt_hintreq_expr_with_etool(
         )
     else:
         etool = temp_etool
-    wf_step_inputs = copy.deepcopy(step.in_)
+    wf_step_inputs = cwl_utils.expression_refactor.copy_of(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
     etool_input_ids = [inp.id for inp in etool_inputs]
@@ -1799,7 +1798,7 @@ def traverse_step(
     ):
         # The expressions of a tool are evaluated for each of the jobs of a
         # scattered step
-        process = copy.deepcopy(step.run)
+        process = cwl_utils.expression_refactor.copy_of(step.run)
         inherit_expressionLib(process, [parent, step])
         if not process.id or process.id.startswith("_:") or "#" in process.id:
             # The identifiers of an inline process start with those of its parents
@@ -1816,8 +1815,8 @@ def traverse_step(
         if modified:
             step.run = process
             add_SubworkflowFeatureRequirement(parent)
-    original_process = copy.deepcopy(step.run)
-    original_step_ins = copy.deepcopy(step.in_)
+    original_process = cwl_utils.expression_refactor.copy_of(step.run)
+    original_step_ins = cwl_utils.expression_refactor.copy_of(step.in_)
     value_froms = [
         (inp, example_self(inp, step, parent)) for inp in step.in_ if inp.valueFrom
     ]
@@ -1977,7 +1976,7 @@ def replace_step_valueFrom_expr_with_etool(
         )
     else:
         etool = temp_etool
-    wf_step_inputs = copy.deepcopy(original_step_ins)
+    wf_step_inputs = cwl_utils.expression_refactor.copy_of(original_step_ins)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
         if wf_step_input.valueFrom:
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 2f97d3e..67408a5 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -3,7 +3,6 @@
 # Copyright 2018-2021 Michael R. Crusoe
 """CWL Expression refactoring tool for CWL v1.1 ."""
 
-import copy
 import json
 import hashlib
 import uuid
@@ -42,14 +41,14 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
     for index, inp in enumerate(process.inputs):
         if inp.type_ == "stdin":
             if result is process:
-                result = copy.deepcopy(process)
+                result = cwl_utils.expression_refactor.copy_of(process)
             result.inputs[index].type_ = "File"
             inp_id = inp.id.split("#")[-1].split("/")[-1]
             result.stdin = f"$(inputs.{inp_id}.path)"
     for index, output in enumerate(process.outputs):
         if output.type_ in ("stdout", "stderr"):
             if result is process:
-                result = copy.deepcopy(process)
+                result = cwl_utils.expression_refactor.copy_of(process)
             stream_path = getattr(result, output.type_)
             if not stream_path:
                 stream_path = hashlib.sha1(  # nosec
@@ -74,7 +73,7 @@ def clean_type_ids(
     cwltype: ArraySchema | cwl.InputRecordSchema,
 ) -> ArraySchema | cwl.InputRecordSchema:
     """Simplify type identifiers."""
-    result = copy.deepcopy(cwltype)
+    result = cwl_utils.expression_refactor.copy_of(cwltype)
     if isinstance(result, ArraySchema):
         if isinstance(result.items, MutableSequence):
             for item in result.items:
@@ -318,7 +317,7 @@ def traverse(
                 id="main",
                 in_=step_inputs,
                 out=step_outputs,
-                run=copy.deepcopy(process),
+                run=cwl_utils.expression_refactor.copy_of(process),
             )
             workflow = cwl.Workflow(
                 inputs=wf_inputs,
@@ -734,9 +733,9 @@ def process_workflow_reqs_and_hints(
                                     replace_etool,
                                 )
                                 if envVarReq is None:
-                                    envVarReq = copy.deepcopy(req)
+                                    envVarReq = cwl_utils.expression_refactor.copy_of(req)
                                     prop_reqs += (cwl.EnvVarRequirement,)
-                                newEnvDef = copy.deepcopy(envDef)
+                                newEnvDef = cwl_utils.expression_refactor.copy_of(envDef)
                                 newEnvDef.envValue = f"$(inputs._envDef{index})"
                                 envVarReq.envDef[index] = newEnvDef
                                 generated_envVar_reqs.append((etool_id, index))
@@ -794,7 +793,7 @@ def process_workflow_reqs_and_hints(
                             )
                             prop_reqs += (cwl.InitialWorkDirRequirement,)
                     else:
-                        iwdr = copy.deepcopy(req)
+                        iwdr = cwl_utils.expression_refactor.copy_of(req)
                         for index, entry in enumerate(req.listing):
                             expression = get_expression(entry, inputs, None)
                             if expression:
@@ -1556,7 +1555,7 @@ def replace_step_clt_expr_with_etool(
         )
     else:
         etool = temp_etool
-    wf_step_inputs = copy.deepcopy(step.in_)
+    wf_step_inputs = cwl_utils.expression_refactor.copy_of(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
     etool_input_ids = [inp.id for inp in etool_inputs]
@@ -1609,7 +1608,7 @@ def replace_clt_hintreq_expr_with_etool(
         )
     else:
         etool = temp_etool
-    wf_step_inputs = copy.deepcopy(step.in_)
+    wf_step_inputs = cwl_utils.expression_refactor.copy_of(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
     etool_input_ids = [inp.id for inp in etool_inputs]
@@ -1818,7 +1817,7 @@ def traverse_step(
     ):
         # The expressions of a tool are evaluated for each of the jobs of a
         # scattered step
-        process = copy.deepcopy(step.run)
+        process = cwl_utils.expression_refactor.copy_of(step.run)
         inherit_expressionLib(process, [parent, step])
         if not process.id or process.id.startswith("_:") or "#" in process.id:
             # The identifiers of an inline process start with those of its parents
@@ -1835,8 +1834,8 @@ def traverse_step(
         if modified:
             step.run = process
             add_SubworkflowFeatureRequirement(parent)
-    original_process = copy.deepcopy(step.run)
-    original_step_ins = copy.deepcopy(step.in_)
+    original_process = cwl_utils.expression_refactor.copy_of(step.run)
+    original_step_ins = cwl_utils.expression_refactor.copy_of(step.in_)
     value_froms = [
         (inp, example_self(inp, step, parent)) for inp in step.in_ if inp.valueFrom
     ]
@@ -1996,7 +1995,7 @@ def replace_step_valueFrom_expr_with_etool(
         )
     else:
         etool = temp_etool
-    wf_step_inputs = copy.deepcopy(original_step_ins)
+    wf_step_inputs = cwl_utils.expression_refactor.copy_of(original_step_ins)
     for wf_step_input in wf_step_inputs:
         if not wf_step_input.id:
             continue
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 01e858b..99b548b 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -3,7 +3,6 @@
 # Copyright 2018-2021 Michael R. Crusoe
 """CWL Expression refactoring tool for CWL v1.2 ."""
 
-import copy
 import json
 import hashlib
 import uuid
@@ -41,14 +40,14 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
     for index, inp in enumerate(process.inputs):
         if inp.type_ == "stdin":
             if result is process:
-                result = copy.deepcopy(process)
+                result = cwl_utils.expression_refactor.copy_of(process)
             result.inputs[index].type_ = "File"
             inp_id = inp.id.split("#")[-1].split("/")[-1]
             result.stdin = f"$(inputs.{inp_id}.path)"
     for index, output in enumerate(process.outputs):
         if output.type_ in ("stdout", "stderr"):
             if result is process:
-                result = copy.deepcopy(process)
+                result = cwl_utils.expression_refactor.copy_of(process)
             stream_path = getattr(result, output.type_)
             if not stream_path:
                 stream_path = hashlib.sha1(  # nosec
@@ -73,7 +72,7 @@ def clean_type_ids(
     cwltype: ArraySchema | cwl.InputRecordSchema,
 ) -> ArraySchema | cwl.InputRecordSchema:
     """Simplify type identifiers."""
-    result = copy.deepcopy(cwltype)
+    result = cwl_utils.expression_refactor.copy_of(cwltype)
     if isinstance(result, ArraySchema):
         if isinstance(result.items, MutableSequence):
             for item in result.items:
@@ -319,7 +318,7 @@ def traverse(
                 id="main",
                 in_=step_inputs,
                 out=step_outputs,
-                run=copy.deepcopy(process),
+                run=cwl_utils.expression_refactor.copy_of(process),
             )
             workflow = cwl.Workflow(
                 inputs=wf_inputs,
@@ -739,7 +738,7 @@ def process_workflow_inputs_and_outputs(
                 etool_id = "_pickValue_workflow_step_{}".format(
                     param2.id.split("#")[-1]
                 )
-                target_type = copy.deepcopy(param2.type_)
+                target_type = cwl_utils.expression_refactor.copy_of(param2.type_)
                 if isinstance(target_type, cwl.OutputArraySchema):
                     target_type.name = None
                 target = cwl.WorkflowInputParameter(id=None, type_=target_type)
@@ -747,7 +746,7 @@ def process_workflow_inputs_and_outputs(
                     sources = param2.outputSource.split("#")[-1]
                 else:
                     sources = [s.split("#")[-1] for s in param2.outputSource]
-                source_type_items = copy.deepcopy(
+                source_type_items = cwl_utils.expression_refactor.copy_of(
                     utils.type_for_source(
                         workflow, sources, linkMerge=param2.linkMerge
                     )
@@ -842,9 +841,9 @@ def process_workflow_reqs_and_hints(
                                     replace_etool,
                                 )
                                 if envVarReq is None:
-                                    envVarReq = copy.deepcopy(req)
+                                    envVarReq = cwl_utils.expression_refactor.copy_of(req)
                                     prop_reqs += (cwl.EnvVarRequirement,)
-                                newEnvDef = copy.deepcopy(envDef)
+                                newEnvDef = cwl_utils.expression_refactor.copy_of(envDef)
                                 newEnvDef.envValue = f"$(inputs._envDef{index})"
                                 envVarReq.envDef[index] = newEnvDef
                                 generated_envVar_reqs.append((etool_id, index))
@@ -902,7 +901,7 @@ def process_workflow_reqs_and_hints(
                             )
                             prop_reqs += (cwl.InitialWorkDirRequirement,)
                     else:
-                        iwdr = copy.deepcopy(req)
+                        iwdr = cwl_utils.expression_refactor.copy_of(req)
                         for index, entry in enumerate(req.listing):
                             expression = get_expression(entry, inputs, None)
                             if expression:
@@ -1671,7 +1670,7 @@ def replace_step_clt_expr_with_etool(
         )
     else:
         etool = temp_etool
-    wf_step_inputs = copy.deepcopy(step.in_)
+    wf_step_inputs = cwl_utils.expression_refactor.copy_of(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
     etool_input_ids = [inp.id for inp in etool_inputs]
@@ -1724,7 +1723,7 @@ def replace_clt_hintreq_expr_with_etool(
         )
     else:
         etool = temp_etool
-    wf_step_inputs = copy.deepcopy(step.in_)
+    wf_step_inputs = cwl_utils.expression_refactor.copy_of(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
     etool_input_ids = [inp.id for inp in etool_inputs]
@@ -1937,7 +1936,7 @@ def traverse_step(
     ):
         # The expressions of a tool are evaluated for each of the jobs of a
         # scattered step, and only for the jobs that are not skipped
-        process = copy.deepcopy(step.run)
+        process = cwl_utils.expression_refactor.copy_of(step.run)
         inherit_expressionLib(process, [parent, step])
         if not process.id or process.id.startswith("_:") or "#" in process.id:
             # The identifiers of an inline process start with those of its parents
@@ -1954,8 +1953,8 @@ def traverse_step(
         if modified:
             step.run = process
             add_SubworkflowFeatureRequirement(parent)
-    original_process = copy.deepcopy(step.run)
-    original_step_ins = copy.deepcopy(step.in_)
+    original_process = cwl_utils.expression_refactor.copy_of(step.run)
+    original_step_ins = cwl_utils.expression_refactor.copy_of(step.in_)
     value_froms = [
         (inp, example_self(inp, step, parent)) for inp in step.in_ if inp.valueFrom
     ]
@@ -2018,7 +2017,7 @@ def traverse_step(
         if expression:
             modified = True
             replace_step_when_expr_with_etool(
-                expression, parent, step, copy.deepcopy(step.in_), replace_etool
+                expression, parent, step, cwl_utils.expression_refactor.copy_of(step.in_), replace_etool
             )
 
     # TODO: skip or special process for sub workflows?
@@ -2122,7 +2121,7 @@ def replace_step_valueFrom_expr_with_etool(
         )
     else:
         etool = temp_etool
-    wf_step_inputs = copy.deepcopy(original_step_ins)
+    wf_step_inputs = cwl_utils.expression_refactor.copy_of(original_step_ins)
     for wf_step_input in wf_step_inputs:
         if not wf_step_input.id:
             continue
@@ -2188,7 +2187,7 @@ def replace_step_when_expr_with_etool(
         )
     else:
         etool = temp_etool
-    wf_step_inputs = copy.deepcopy(original_step_ins)
+    wf_step_inputs = cwl_utils.expression_refactor.copy_of(original_step_ins)
     for wf_step_input in wf_step_inputs:
         if not wf_step_input.id:
             continue
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 152c9d3..62bbb5d 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -247,7 +247,7 @@ def find_expressionLib(
         if process.requirements:
             for req in process.requirements:
                 if isinstance(req, InlineJavascriptRequirement):
-                    return cast(list[str] | None, copy.deepcopy(req.expressionLib))
+                    return cast(list[str] | None, copy_of(req.expressionLib))
     return None
 
 
@@ -585,6 +585,29 @@ def process_CommandLineTool_output(
             )
 
 
+def copy_of(node: Any) -> Any:
+    """
+    Make a deep copy of CWL objects that shares their loading options.
+
+    The loading options refer to all of the loaded documents.
+    """
+    memo: dict[int, Any] = {}
+    todo = [node]
+    while todo:
+        match todo.pop():
+            case MutableSequence() as items:
+                todo.extend(items)
+            case MutableMapping() as mapping:
+                todo.extend(mapping.values())
+            case Saveable() as obj:
+                for key, value in vars(obj).items():
+                    if key == "loadingOptions":
+                        memo[id(value)] = value
+                    else:
+                        todo.append(value)
+    return copy.deepcopy(node, memo)
+
+
 def rename_prefix(node: Any, old: str, new: str) -> Any:
     """Give the identifiers (and references) that start with the old prefix the new one."""
     match node:
@@ -626,7 +649,7 @@ def push_down_requirements(workflow: Workflow) -> None:
                 step.run, CommandLineTool | Workflow
             ) and not has_kind(step.run.requirements, req):
                 step.run.requirements = list(step.run.requirements or []) + [
-                    copy.deepcopy(req)
+                    copy_of(req)
                 ]
         if step_reqs:
             step.requirements = [x for x in step.requirements if x not in step_reqs]
-- 
2.43.0


From 35ec87bd98eab781cf27697504aaa859965b65a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:56 +0000
Subject: [PATCH 096/121] fix: several expressions of a scattered step can be
 refactored

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 14 ++++++++++----
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 14 ++++++++++----
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 14 ++++++++++----
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index dbcd274..5652b06 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1817,6 +1817,7 @@ def traverse_step(
             add_SubworkflowFeatureRequirement(parent)
     original_process = cwl_utils.expression_refactor.copy_of(step.run)
     original_step_ins = cwl_utils.expression_refactor.copy_of(step.in_)
+    original_scatter = list(aslist(step.scatter)) if step.scatter else None
     value_froms = [
         (inp, example_self(inp, step, parent)) for inp in step.in_ if inp.valueFrom
     ]
@@ -1861,6 +1862,7 @@ def traverse_step(
                 inp,
                 original_step_ins,
                 replace_etool,
+                original_scatter,
             )
             # All of that happened already in the new step
             for attr in (
@@ -1915,7 +1917,10 @@ def workflow_step_to_InputParameters(
 
 
 def scatter_expression_step(
-    expression_step: cwl.WorkflowStep, step: cwl.WorkflowStep, new_input_id: str
+    expression_step: cwl.WorkflowStep,
+    step: cwl.WorkflowStep,
+    new_input_id: str,
+    scattered: list[str] | None = None,
 ) -> None:
     """
     Evaluate an expression for each of the jobs of a scattered step.
@@ -1924,7 +1929,7 @@ def scatter_expression_step(
     """
     if not step.scatter:
         return
-    scatter = [x.split("/")[-1] for x in aslist(step.scatter)]
+    scatter = [x.split("/")[-1] for x in scattered or aslist(step.scatter)]
     if len(scatter) > 1 and step.scatterMethod != "dotproduct":
         raise WorkflowException(
             f"Sorry, expressions of a step with the scatterMethod "
@@ -1933,7 +1938,7 @@ def scatter_expression_step(
     expression_step.scatter = list(scatter)
     if len(scatter) > 1:
         expression_step.scatterMethod = "dotproduct"
-    if new_input_id not in scatter:
+    if new_input_id not in [x.split("/")[-1] for x in aslist(step.scatter)]:
         step.scatter = list(aslist(step.scatter)) + [new_input_id]
         step.scatterMethod = "dotproduct"
 
@@ -1946,6 +1951,7 @@ def replace_step_valueFrom_expr_with_etool(
     step_inp: cwl.WorkflowStepInput,
     original_step_ins: list[cwl.WorkflowStepInput],
     replace_etool: bool,
+    original_scatter: list[str] | None = None,
 ) -> None:
     """Replace a WorkflowStep level 'valueFrom' expression with a sibling ExpressionTool step."""
     if not step_inp.id:
@@ -1999,7 +2005,7 @@ def replace_step_valueFrom_expr_with_etool(
         out=[cwl.WorkflowStepOutput("result")],
         run=etool,
     )
-    scatter_expression_step(expression_step, step, step_inp_id)
+    scatter_expression_step(expression_step, step, step_inp_id, original_scatter)
     workflow.steps.append(expression_step)
 
 
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 67408a5..22959a6 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1836,6 +1836,7 @@ def traverse_step(
             add_SubworkflowFeatureRequirement(parent)
     original_process = cwl_utils.expression_refactor.copy_of(step.run)
     original_step_ins = cwl_utils.expression_refactor.copy_of(step.in_)
+    original_scatter = list(aslist(step.scatter)) if step.scatter else None
     value_froms = [
         (inp, example_self(inp, step, parent)) for inp in step.in_ if inp.valueFrom
     ]
@@ -1880,6 +1881,7 @@ def traverse_step(
                 inp,
                 original_step_ins,
                 replace_etool,
+                original_scatter,
             )
             # All of that happened already in the new step
             for attr in (
@@ -1934,7 +1936,10 @@ def workflow_step_to_WorkflowInputParameters(
 
 
 def scatter_expression_step(
-    expression_step: cwl.WorkflowStep, step: cwl.WorkflowStep, new_input_id: str
+    expression_step: cwl.WorkflowStep,
+    step: cwl.WorkflowStep,
+    new_input_id: str,
+    scattered: list[str] | None = None,
 ) -> None:
     """
     Evaluate an expression for each of the jobs of a scattered step.
@@ -1943,7 +1948,7 @@ def scatter_expression_step(
     """
     if not step.scatter:
         return
-    scatter = [x.split("/")[-1] for x in aslist(step.scatter)]
+    scatter = [x.split("/")[-1] for x in scattered or aslist(step.scatter)]
     if len(scatter) > 1 and step.scatterMethod != "dotproduct":
         raise WorkflowException(
             f"Sorry, expressions of a step with the scatterMethod "
@@ -1952,7 +1957,7 @@ def scatter_expression_step(
     expression_step.scatter = list(scatter)
     if len(scatter) > 1:
         expression_step.scatterMethod = "dotproduct"
-    if new_input_id not in scatter:
+    if new_input_id not in [x.split("/")[-1] for x in aslist(step.scatter)]:
         step.scatter = list(aslist(step.scatter)) + [new_input_id]
         step.scatterMethod = "dotproduct"
 
@@ -1965,6 +1970,7 @@ def replace_step_valueFrom_expr_with_etool(
     step_inp: cwl.WorkflowStepInput,
     original_step_ins: list[cwl.WorkflowStepInput],
     replace_etool: bool,
+    original_scatter: list[str] | None = None,
 ) -> None:
     """Replace a WorkflowStep level 'valueFrom' expression with a sibling ExpressionTool step."""
     if not step_inp.id:
@@ -2020,7 +2026,7 @@ def replace_step_valueFrom_expr_with_etool(
         out=[cwl.WorkflowStepOutput("result")],
         run=etool,
     )
-    scatter_expression_step(expression_step, step, step_inp_id)
+    scatter_expression_step(expression_step, step, step_inp_id, original_scatter)
     workflow.steps.append(expression_step)
 
 
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 99b548b..b538737 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1955,6 +1955,7 @@ def traverse_step(
             add_SubworkflowFeatureRequirement(parent)
     original_process = cwl_utils.expression_refactor.copy_of(step.run)
     original_step_ins = cwl_utils.expression_refactor.copy_of(step.in_)
+    original_scatter = list(aslist(step.scatter)) if step.scatter else None
     value_froms = [
         (inp, example_self(inp, step, parent)) for inp in step.in_ if inp.valueFrom
     ]
@@ -1999,6 +2000,7 @@ def traverse_step(
                 inp,
                 original_step_ins,
                 replace_etool,
+                original_scatter,
             )
             # All of that happened already in the new step
             for attr in (
@@ -2060,7 +2062,10 @@ def workflow_step_to_WorkflowInputParameters(
 
 
 def scatter_expression_step(
-    expression_step: cwl.WorkflowStep, step: cwl.WorkflowStep, new_input_id: str
+    expression_step: cwl.WorkflowStep,
+    step: cwl.WorkflowStep,
+    new_input_id: str,
+    scattered: list[str] | None = None,
 ) -> None:
     """
     Evaluate an expression for each of the jobs of a scattered step.
@@ -2069,7 +2074,7 @@ def scatter_expression_step(
     """
     if not step.scatter:
         return
-    scatter = [x.split("/")[-1] for x in aslist(step.scatter)]
+    scatter = [x.split("/")[-1] for x in scattered or aslist(step.scatter)]
     if len(scatter) > 1 and step.scatterMethod != "dotproduct":
         raise WorkflowException(
             f"Sorry, expressions of a step with the scatterMethod "
@@ -2078,7 +2083,7 @@ def scatter_expression_step(
     expression_step.scatter = list(scatter)
     if len(scatter) > 1:
         expression_step.scatterMethod = "dotproduct"
-    if new_input_id not in scatter:
+    if new_input_id not in [x.split("/")[-1] for x in aslist(step.scatter)]:
         step.scatter = list(aslist(step.scatter)) + [new_input_id]
         step.scatterMethod = "dotproduct"
 
@@ -2091,6 +2096,7 @@ def replace_step_valueFrom_expr_with_etool(
     step_inp: cwl.WorkflowStepInput,
     original_step_ins: list[cwl.WorkflowStepInput],
     replace_etool: bool,
+    original_scatter: list[str] | None = None,
 ) -> None:
     """Replace a WorkflowStep level 'valueFrom' expression with a sibling ExpressionTool step."""
     if not step_inp.id:
@@ -2146,7 +2152,7 @@ def replace_step_valueFrom_expr_with_etool(
         out=[cwl.WorkflowStepOutput("result")],
         run=etool,
     )
-    scatter_expression_step(expression_step, step, step_inp_id)
+    scatter_expression_step(expression_step, step, step_inp_id, original_scatter)
     workflow.steps.append(expression_step)
 
 
-- 
2.43.0


From b7e769a90267c22a4d5af4e1ff7ddbf96743ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:06 +0000
Subject: [PATCH 097/121] fix: expressions of the tools of a workflow with an
 identifier can be refactored

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 6 ++++++
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 6 ++++++
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 6 ++++++
 src/cwl_utils/expression_refactor.py          | 7 +++++++
 4 files changed, 25 insertions(+)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 5652b06..863f690 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1545,6 +1545,9 @@ def replace_step_clt_expr_with_etool(
     wf_step_inputs = cwl_utils.expression_refactor.copy_of(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
+        wf_step_input.source = cwl_utils.expression_refactor.short_source(
+            wf_step_input.source
+        )
     etool_input_ids = [inp.id for inp in etool_inputs]
     wf_step_inputs[:] = [
         x
@@ -1598,6 +1601,9 @@ def replace_clt_hintreq_expr_with_etool(
     wf_step_inputs = cwl_utils.expression_refactor.copy_of(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
+        wf_step_input.source = cwl_utils.expression_refactor.short_source(
+            wf_step_input.source
+        )
     etool_input_ids = [inp.id for inp in etool_inputs]
     wf_step_inputs[:] = [
         x
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 22959a6..b667bfe 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1558,6 +1558,9 @@ def replace_step_clt_expr_with_etool(
     wf_step_inputs = cwl_utils.expression_refactor.copy_of(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
+        wf_step_input.source = cwl_utils.expression_refactor.short_source(
+            wf_step_input.source
+        )
     etool_input_ids = [inp.id for inp in etool_inputs]
     wf_step_inputs[:] = [
         x
@@ -1611,6 +1614,9 @@ def replace_clt_hintreq_expr_with_etool(
     wf_step_inputs = cwl_utils.expression_refactor.copy_of(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
+        wf_step_input.source = cwl_utils.expression_refactor.short_source(
+            wf_step_input.source
+        )
     etool_input_ids = [inp.id for inp in etool_inputs]
     wf_step_inputs[:] = [
         x
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index b538737..bcf40dc 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1673,6 +1673,9 @@ def replace_step_clt_expr_with_etool(
     wf_step_inputs = cwl_utils.expression_refactor.copy_of(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
+        wf_step_input.source = cwl_utils.expression_refactor.short_source(
+            wf_step_input.source
+        )
     etool_input_ids = [inp.id for inp in etool_inputs]
     wf_step_inputs[:] = [
         x
@@ -1726,6 +1729,9 @@ def replace_clt_hintreq_expr_with_etool(
     wf_step_inputs = cwl_utils.expression_refactor.copy_of(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
+        wf_step_input.source = cwl_utils.expression_refactor.short_source(
+            wf_step_input.source
+        )
     etool_input_ids = [inp.id for inp in etool_inputs]
     wf_step_inputs[:] = [
         x
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 62bbb5d..72aa9c2 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -608,6 +608,13 @@ def copy_of(node: Any) -> Any:
     return copy.deepcopy(node, memo)
 
 
+def short_source(source: str | list[str] | None) -> str | list[str] | None:
+    """Refer to inputs and steps of the same workflow by their short identifiers."""
+    if isinstance(source, str):
+        return source.split("#")[-1]
+    return [item.split("#")[-1] for item in source] if source else source
+
+
 def rename_prefix(node: Any, old: str, new: str) -> Any:
     """Give the identifiers (and references) that start with the old prefix the new one."""
     match node:
-- 
2.43.0


From 7ffd9fbaa680596a022a40f67a1d10d4abef562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:06 +0000
Subject: [PATCH 098/121] fix: refactored entries of InitialWorkDirRequirement
 keep the whitespace around them

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 9 +++++++--
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 9 +++++++--
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 863f690..dfc09dd 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -102,6 +102,7 @@ def get_expression(
     inputs: CWLObjectType,
     self: CWLOutputType | None,
     convert_references: bool = False,
+    strip_whitespace: bool = True,
 ) -> str | None:
     """
     Find and return a normalized CWL expression, if any.
@@ -111,7 +112,7 @@ def get_expression(
     """
     if not needs_parsing(string):
         return None
-    stripped = string.strip()
+    stripped = string.strip() if strip_whitespace else string
     # Is it a single expression, without any text around it?
     single = scanner(stripped) == (0, len(stripped))
     if single and stripped.startswith("${"):
@@ -154,6 +155,7 @@ def get_expression(
                 inputs=inputs, self=self, runtime=runtime
             ),
             fullJS=True,
+            strip_whitespace=strip_whitespace,
             escaping_behavior=1,
             convert_to_expression=True,
         ),
@@ -1139,7 +1141,10 @@ def process_level_reqs(
                             ("entryname", "_entryname", "string"),
                         ):
                             expression = get_expression(
-                                getattr(entry, attr), inputs, None
+                                getattr(entry, attr),
+                                inputs,
+                                None,
+                                strip_whitespace=attr != "entry",
                             )
                             if not expression:
                                 continue
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index b667bfe..aed65bf 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -109,6 +109,7 @@ def get_expression(
     inputs: CWLObjectType,
     self: CWLOutputType | None,
     convert_references: bool = False,
+    strip_whitespace: bool = True,
 ) -> str | None:
     """
     Find and return a normalized CWL expression, if any.
@@ -118,7 +119,7 @@ def get_expression(
     """
     if not needs_parsing(string):
         return None
-    stripped = string.strip()
+    stripped = string.strip() if strip_whitespace else string
     # Is it a single expression, without any text around it?
     single = scanner(stripped) == (0, len(stripped))
     if single and stripped.startswith("${"):
@@ -161,6 +162,7 @@ def get_expression(
                 inputs=inputs, self=self, runtime=runtime
             ),
             fullJS=True,
+            strip_whitespace=strip_whitespace,
             escaping_behavior=1,
             convert_to_expression=True,
         ),
@@ -1150,7 +1152,10 @@ def process_level_reqs(
                             ("entryname", "_entryname", "string"),
                         ):
                             expression = get_expression(
-                                getattr(entry, attr), inputs, None
+                                getattr(entry, attr),
+                                inputs,
+                                None,
+                                strip_whitespace=attr != "entry",
                             )
                             if not expression:
                                 continue
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index bcf40dc..5bbf0b2 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -108,6 +108,7 @@ def get_expression(
     inputs: CWLObjectType,
     self: CWLOutputType | None,
     convert_references: bool = False,
+    strip_whitespace: bool = True,
 ) -> str | None:
     """
     Find and return a normalized CWL expression, if any.
@@ -117,7 +118,7 @@ def get_expression(
     """
     if not needs_parsing(string):
         return None
-    stripped = string.strip()
+    stripped = string.strip() if strip_whitespace else string
     # Is it a single expression, without any text around it?
     single = scanner(stripped) == (0, len(stripped))
     if single and stripped.startswith("${"):
@@ -160,6 +161,7 @@ def get_expression(
                 inputs=inputs, self=self, runtime=runtime
             ),
             fullJS=True,
+            strip_whitespace=strip_whitespace,
             escaping_behavior=2,
             convert_to_expression=True,
         ),
@@ -1265,7 +1267,10 @@ def process_level_reqs(
                             ("entryname", "_entryname", "string"),
                         ):
                             expression = get_expression(
-                                getattr(entry, attr), inputs, None
+                                getattr(entry, attr),
+                                inputs,
+                                None,
+                                strip_whitespace=attr != "entry",
                             )
                             if not expression:
                                 continue
-- 
2.43.0


From 689d6ba5b0255c69184f4365415c2a7b6d87947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 099/121] fix: requirements are moved once, and not to
 generated steps

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 3 +++
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 3 +++
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 3 +++
 src/cwl_utils/expression_refactor.py          | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index dfc09dd..2a33fc3 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1826,6 +1826,9 @@ def traverse_step(
         if modified:
             step.run = process
             add_SubworkflowFeatureRequirement(parent)
+        elif isinstance(process, cwl.Workflow):
+            # Its requirements may be those of its processes now
+            step.run = process
     original_process = cwl_utils.expression_refactor.copy_of(step.run)
     original_step_ins = cwl_utils.expression_refactor.copy_of(step.in_)
     original_scatter = list(aslist(step.scatter)) if step.scatter else None
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index aed65bf..d0f7bcd 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1845,6 +1845,9 @@ def traverse_step(
         if modified:
             step.run = process
             add_SubworkflowFeatureRequirement(parent)
+        elif isinstance(process, cwl.Workflow):
+            # Its requirements may be those of its processes now
+            step.run = process
     original_process = cwl_utils.expression_refactor.copy_of(step.run)
     original_step_ins = cwl_utils.expression_refactor.copy_of(step.in_)
     original_scatter = list(aslist(step.scatter)) if step.scatter else None
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 5bbf0b2..d876c94 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1964,6 +1964,9 @@ def traverse_step(
         if modified:
             step.run = process
             add_SubworkflowFeatureRequirement(parent)
+        elif isinstance(process, cwl.Workflow):
+            # Its requirements may be those of its processes now
+            step.run = process
     original_process = cwl_utils.expression_refactor.copy_of(step.run)
     original_step_ins = cwl_utils.expression_refactor.copy_of(step.in_)
     original_scatter = list(aslist(step.scatter)) if step.scatter else None
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 72aa9c2..9730e30 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -648,6 +648,9 @@ def push_down_requirements(workflow: Workflow) -> None:
 
     workflow_reqs = [req for req in workflow.requirements or [] if has_expression(req)]
     for step in workflow.steps:
+        step_name = (step.id or "").split("#")[-1].split("/")[-1]
+        if step_name.startswith(("_expression_", "_when_expression_")):
+            continue  # made by us
         step_reqs = [req for req in step.requirements or [] if has_expression(req)]
         for req in step_reqs + [
             req for req in workflow_reqs if not has_kind(step.requirements, req)
-- 
2.43.0


From c212f63c1279b9d3e1cb0ac42b81f7d45899da80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:44 +0000
Subject: [PATCH 100/121] fix: sub-workflows of external documents keep their
 identifiers when refactored

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 10 +++++++---
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 10 +++++++---
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 10 +++++++---
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 2a33fc3..d9e0536 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1816,10 +1816,14 @@ def traverse_step(
             prefix = f"{step.id}/"
             if process.id and "#" in process.id:
                 prefix = f"{process.id}/"
+            old_id = process.id
             process.id = f"_:{uuid.uuid4()}"
-            cwl_utils.expression_refactor.rename_prefix(
-                process, prefix, f"{process.id}#"
-            )
+            # It may have been refactored before, as part of another document
+            for old_prefix in (prefix, f"{old_id}#"):
+                if "#" in old_prefix:
+                    cwl_utils.expression_refactor.rename_prefix(
+                        process, old_prefix, f"{process.id}#"
+                    )
         process, modified = traverse(
             process, replace_etool, False, skip_command_line1, skip_command_line2
         )
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index d0f7bcd..6591eb4 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1835,10 +1835,14 @@ def traverse_step(
             prefix = f"{step.id}/run/"
             if process.id and "#" in process.id:
                 prefix = f"{process.id}/"
+            old_id = process.id
             process.id = f"_:{uuid.uuid4()}"
-            cwl_utils.expression_refactor.rename_prefix(
-                process, prefix, f"{process.id}#"
-            )
+            # It may have been refactored before, as part of another document
+            for old_prefix in (prefix, f"{old_id}#"):
+                if "#" in old_prefix:
+                    cwl_utils.expression_refactor.rename_prefix(
+                        process, old_prefix, f"{process.id}#"
+                    )
         process, modified = traverse(
             process, replace_etool, False, skip_command_line1, skip_command_line2
         )
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index d876c94..b01f95a 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1954,10 +1954,14 @@ def traverse_step(
             prefix = f"{step.id}/run/"
             if process.id and "#" in process.id:
                 prefix = f"{process.id}/"
+            old_id = process.id
             process.id = f"_:{uuid.uuid4()}"
-            cwl_utils.expression_refactor.rename_prefix(
-                process, prefix, f"{process.id}#"
-            )
+            # It may have been refactored before, as part of another document
+            for old_prefix in (prefix, f"{old_id}#"):
+                if "#" in old_prefix:
+                    cwl_utils.expression_refactor.rename_prefix(
+                        process, old_prefix, f"{process.id}#"
+                    )
         process, modified = traverse(
             process, replace_etool, False, skip_command_line1, skip_command_line2
         )
-- 
2.43.0


From cb90d1208bca1be678610b2b5c6937f376bae2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:10 +0000
Subject: [PATCH 101/121] fix: references to paths of files are not refactored

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py |  4 ++++
 src/cwl_utils/cwl_v1_1_expression_refactor.py |  4 ++++
 src/cwl_utils/cwl_v1_2_expression_refactor.py |  4 ++++
 src/cwl_utils/expression_refactor.py          | 18 ++++++++++++++++++
 4 files changed, 30 insertions(+)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index d9e0536..0b97e89 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -112,6 +112,10 @@ def get_expression(
     """
     if not needs_parsing(string):
         return None
+    if not convert_references and cwl_utils.expression_refactor.has_path_references(
+        string
+    ):
+        return None
     stripped = string.strip() if strip_whitespace else string
     # Is it a single expression, without any text around it?
     single = scanner(stripped) == (0, len(stripped))
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 6591eb4..ce2a7da 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -119,6 +119,10 @@ def get_expression(
     """
     if not needs_parsing(string):
         return None
+    if not convert_references and cwl_utils.expression_refactor.has_path_references(
+        string
+    ):
+        return None
     stripped = string.strip() if strip_whitespace else string
     # Is it a single expression, without any text around it?
     single = scanner(stripped) == (0, len(stripped))
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index b01f95a..1fd4057 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -118,6 +118,10 @@ def get_expression(
     """
     if not needs_parsing(string):
         return None
+    if not convert_references and cwl_utils.expression_refactor.has_path_references(
+        string
+    ):
+        return None
     stripped = string.strip() if strip_whitespace else string
     # Is it a single expression, without any text around it?
     single = scanner(stripped) == (0, len(stripped))
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 9730e30..7cb932b 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -7,6 +7,7 @@ import argparse
 import copy
 import json
 import logging
+import re
 import shutil
 import sys
 from collections.abc import MutableMapping, MutableSequence, Sequence
@@ -686,6 +687,23 @@ def needs_javascript(node: Any) -> bool:
     return isinstance(node, MutableSequence) and any(map(needs_javascript, node))
 
 
+def has_path_references(string: str) -> bool:
+    """
+    Find out if a string has parameter references to paths, and no JavaScript.
+
+    The paths are those where the files are staged for that tool, not for others.
+    """
+    found = False
+    while match := scanner(string):
+        reference = string[match[0] : match[1]]
+        if reference.startswith("$"):
+            if not param_re.match(reference[1:]):
+                return False
+            found |= re.search(r"\W(path|dirname)\W*$", reference) is not None
+        string = string[match[1] :]
+    return found
+
+
 def remove_JSReq(
     process: CommandLineTool | WorkflowStep | Workflow,
     skip_command_line1: bool,
-- 
2.43.0


From 61cde72d8bd5e2167400b2a32e2f24c5bea50182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:19 +0000
Subject: [PATCH 102/121] fix: refactored documents in other directories find
 the files they refer to

---
 src/cwl_utils/expression_refactor.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 7cb932b..152f07c 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -13,6 +13,7 @@ import sys
 from collections.abc import MutableMapping, MutableSequence, Sequence
 from pathlib import Path
 from typing import Any, Protocol, cast, Literal, overload
+from urllib.parse import urljoin
 
 from ruamel.yaml.main import YAML
 from ruamel.yaml.scalarstring import walk_tree
@@ -39,7 +40,9 @@ from cwl_utils.parser import (
     Workflow,
     CommandOutputParameter,
     ExpressionTool,
+    Directory,
     EnvVarRequirement,
+    File,
     InitialWorkDirRequirement,
     InlineJavascriptRequirement,
     ProcessRequirement,
@@ -633,6 +636,23 @@ def rename_prefix(node: Any, old: str, new: str) -> Any:
     return node
 
 
+def absolute_locations(node: Any) -> Any:
+    """Prepare a loaded document for being saved in another directory."""
+    if isinstance(node, File | Directory):
+        return save(node, top=False, relative_uris=False)
+    match node:
+        case MutableSequence():
+            node[:] = [absolute_locations(item) for item in node]
+        case MutableMapping():
+            for key in node:
+                node[key] = absolute_locations(node[key])
+        case Saveable():
+            for key, value in vars(node).items():
+                if key not in ("extension_fields", "loadingOptions"):
+                    setattr(node, key, absolute_locations(value))
+    return node
+
+
 def push_down_requirements(workflow: Workflow) -> None:
     """
     Move the requirements with expressions to the processes that they are for.
@@ -791,11 +811,16 @@ def refactor(args: argparse.Namespace) -> int:
                     continue
                 else:
                     return 7
+            result = absolute_locations(result)
             if not isinstance(result, MutableSequence):
                 result_json = save(
                     result,
                     base_url=(result.loadingOptions.fileuri or ""),
                 )
+                if "$schemas" in result_json:
+                    result_json["$schemas"] = [
+                        urljoin(uri, schema) for schema in result_json["$schemas"]
+                    ]
             #   ^^ Setting the base_url and keeping the default value
             #      for relative_uris=True means that the IDs in the generated
             #      JSON/YAML are kept clean of the path to the input document
-- 
2.43.0


From 9f4ffdef4472dfa66058273c88735b762a9dc4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:20 +0000
Subject: [PATCH 103/121] fix: type definitions of refactored processes are
 kept

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py |  8 ++++-
 src/cwl_utils/cwl_v1_1_expression_refactor.py |  8 ++++-
 src/cwl_utils/cwl_v1_2_expression_refactor.py |  8 ++++-
 src/cwl_utils/expression_refactor.py          | 33 +++++++++++++++----
 4 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 0b97e89..69b75d1 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -240,7 +240,10 @@ process.stdout.write(JSON.stringify(ret));"""
         inputs=inputs,
         outputs=outputs,
         id=etool.id,
-        requirements=[iwdr],
+        requirements=[
+            iwdr,
+            *cwl_utils.expression_refactor.type_definitions(etool),
+        ],
         hints=[containerReq, softwareHint],
         label=etool.label,
         doc=etool.doc,
@@ -320,6 +323,8 @@ def traverse(
                 inputs=wf_inputs,
                 outputs=wf_outputs,
                 steps=[step],
+                requirements=cwl_utils.expression_refactor.type_definitions(process)
+                or None,
                 cwlVersion=process.cwlVersion,
                 loadingOptions=process.loadingOptions,
             )
@@ -1513,6 +1518,7 @@ def extract_outputEvals(
         inputs=sub_wf_inputs,
         outputs=sub_wf_outputs,
         steps=sub_wf_steps,
+        requirements=cwl_utils.expression_refactor.type_definitions(target_clt) or None,
         cwlVersion=parent.cwlVersion,
     )
     add_SubworkflowFeatureRequirement(parent)
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index ce2a7da..ddaac0d 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -249,7 +249,10 @@ process.stdout.write(JSON.stringify(ret));"""
         inputs=inputs,
         outputs=outputs,
         id=etool.id,
-        requirements=[iwdr],
+        requirements=[
+            iwdr,
+            *cwl_utils.expression_refactor.type_definitions(etool),
+        ],
         hints=[containerReq, softwareHint],
         label=etool.label,
         doc=etool.doc,
@@ -329,6 +332,8 @@ def traverse(
                 inputs=wf_inputs,
                 outputs=wf_outputs,
                 steps=[step],
+                requirements=cwl_utils.expression_refactor.type_definitions(process)
+                or None,
                 cwlVersion=process.cwlVersion,
                 loadingOptions=process.loadingOptions,
             )
@@ -1526,6 +1531,7 @@ def extract_outputEvals(
         inputs=sub_wf_inputs,
         outputs=sub_wf_outputs,
         steps=sub_wf_steps,
+        requirements=cwl_utils.expression_refactor.type_definitions(target_clt) or None,
         cwlVersion=parent.cwlVersion,
     )
     add_SubworkflowFeatureRequirement(parent)
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 1fd4057..8bebbb9 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -248,7 +248,10 @@ process.stdout.write(JSON.stringify(ret));"""
         inputs=inputs,
         outputs=outputs,
         id=etool.id,
-        requirements=[iwdr],
+        requirements=[
+            iwdr,
+            *cwl_utils.expression_refactor.type_definitions(etool),
+        ],
         hints=[containerReq, softwareHint],
         label=etool.label,
         doc=etool.doc,
@@ -330,6 +333,8 @@ def traverse(
                 inputs=wf_inputs,
                 outputs=wf_outputs,
                 steps=[step],
+                requirements=cwl_utils.expression_refactor.type_definitions(process)
+                or None,
                 cwlVersion=process.cwlVersion,
                 loadingOptions=process.loadingOptions,
             )
@@ -1641,6 +1646,7 @@ def extract_outputEvals(
         inputs=sub_wf_inputs,
         outputs=sub_wf_outputs,
         steps=sub_wf_steps,
+        requirements=cwl_utils.expression_refactor.type_definitions(target_clt) or None,
         cwlVersion=parent.cwlVersion,
     )
     add_SubworkflowFeatureRequirement(parent)
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 152f07c..57f19b1 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -47,6 +47,7 @@ from cwl_utils.parser import (
     InlineJavascriptRequirement,
     ProcessRequirement,
     ResourceRequirement,
+    SchemaDefRequirement,
     CommandLineTool,
     load_document_by_uri,
     CommandLineBinding,
@@ -636,20 +637,40 @@ def rename_prefix(node: Any, old: str, new: str) -> Any:
     return node
 
 
-def absolute_locations(node: Any) -> Any:
-    """Prepare a loaded document for being saved in another directory."""
+def type_definitions(process: Process) -> list[Any]:
+    """Copy the definitions of the types of a process."""
+    return [
+        copy_of(req)
+        for req in process.requirements or []
+        if isinstance(req, SchemaDefRequirement)
+    ]
+
+
+def absolute_locations(node: Any, uri: str) -> Any:
+    """Prepare the document loaded from the URI for being saved in another directory."""
     if isinstance(node, File | Directory):
         return save(node, top=False, relative_uris=False)
     match node:
         case MutableSequence():
-            node[:] = [absolute_locations(item) for item in node]
+            node[:] = [absolute_locations(item, uri) for item in node]
         case MutableMapping():
             for key in node:
-                node[key] = absolute_locations(node[key])
+                node[key] = absolute_locations(node[key], uri)
         case Saveable():
             for key, value in vars(node).items():
                 if key not in ("extension_fields", "loadingOptions"):
-                    setattr(node, key, absolute_locations(value))
+                    setattr(node, key, absolute_locations(value, uri))
+            if isinstance(node, SchemaDefRequirement):
+                # Types of other documents are referred to by their URIs
+                node.types = [
+                    (
+                        item
+                        if isinstance(item, MutableMapping)
+                        or (getattr(item, "name", None) or uri).startswith(uri)
+                        else save(item, top=False, relative_uris=False)
+                    )
+                    for item in node.types
+                ]
     return node
 
 
@@ -811,7 +832,7 @@ def refactor(args: argparse.Namespace) -> int:
                     continue
                 else:
                     return 7
-            result = absolute_locations(result)
+            result = absolute_locations(result, uri)
             if not isinstance(result, MutableSequence):
                 result_json = save(
                     result,
-- 
2.43.0


From 15e6437a2d9d264d1f21b2b379c48fb2e39c81f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:07 +0000
Subject: [PATCH 104/121] fix: a document that can not be normalized does not
 keep others from it

---
 src/cwl_utils/normalizer.py | 101 +++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 48 deletions(-)

diff --git a/src/cwl_utils/normalizer.py b/src/cwl_utils/normalizer.py
index 100095d..deebb01 100644
--- a/src/cwl_utils/normalizer.py
+++ b/src/cwl_utils/normalizer.py
@@ -4,7 +4,6 @@
 """Normalize CWL documents to CWL v1.2, JSON style."""
 
 import argparse
-import json
 import logging
 import sys
 import tempfile
@@ -20,6 +19,7 @@ from cwl_utils import cwl_v1_2_expression_refactor
 from cwl_utils.loghandler import _logger as _cwlutilslogger
 from cwl_utils.pack import pack
 from cwl_utils.parser.cwl_v1_2 import load_document_by_yaml
+from cwl_utils.utils import json_text
 
 _logger = logging.getLogger("cwl-normalizer")  # pylint: disable=invalid-name
 defaultStreamHandler = logging.StreamHandler()  # pylint: disable=invalid-name
@@ -76,60 +76,65 @@ def main() -> None:
 
 def run(args: argparse.Namespace) -> int:
     """Primary processing loop."""
+    return_code = 0
     imports: set[str] = set()
     yaml = YAML(typ="rt")
     yaml.preserve_quotes = True
     for document in args.inputs:
         _logger.info("Processing %s.", document)
-        with open(document) as doc_handle:
-            result = yaml.load(doc_handle)
-        add_lc_filename(result, document)
-        version = result.get("cwlVersion", None)
-        if version in ("draft-3", "cwl:draft-3", "v1.0", "v1.1"):
-            result = cwlupgrader.upgrade_document(result, args.dir, imports=imports)
-        elif version == "v1.2":
-            pass  # already at target version; no upgrade needed
-        else:
-            _logger.error(
-                "Sorry, %s in %s is not a supported CWL version by this tool.",
-                version,
-                document,
-            )
-            return -1
-        uri = Path(document).resolve().as_uri()
-        if not args.no_expression_refactoring:
-            refactored, _ = cwl_v1_2_expression_refactor.traverse(
-                load_document_by_yaml(result, uri),
-                not args.etools,
-                False,
-                args.skip_some1,
-                args.skip_some2,
-            )
-            if not isinstance(refactored, MutableSequence):
-                result = save(
-                    refactored,
-                    base_url=(refactored.loadingOptions.fileuri or ""),
+        try:
+            with open(document, encoding="utf-8") as doc_handle:
+                result = yaml.load(doc_handle)
+            add_lc_filename(result, document)
+            version = result.get("cwlVersion", None)
+            if version in ("draft-3", "cwl:draft-3", "v1.0", "v1.1"):
+                result = cwlupgrader.upgrade_document(result, args.dir, imports=imports)
+            elif version == "v1.2":
+                pass  # already at target version; no upgrade needed
+            else:
+                _logger.error(
+                    "Sorry, %s in %s is not a supported CWL version by this tool.",
+                    version,
+                    document,
+                )
+                return_code = -1
+                continue
+            uri = Path(document).resolve().as_uri()
+            if not args.no_expression_refactoring:
+                refactored, _ = cwl_v1_2_expression_refactor.traverse(
+                    load_document_by_yaml(result, uri),
+                    not args.etools,
+                    False,
+                    args.skip_some1,
+                    args.skip_some2,
                 )
-            #   ^^ Setting the base_url and keeping the default value
-            #      for relative_uris=True means that the IDs in the generated
-            #      JSON/YAML are kept clean of the path to the input document
+                if not isinstance(refactored, MutableSequence):
+                    result = save(
+                        refactored,
+                        base_url=(refactored.loadingOptions.fileuri or ""),
+                    )
+                #   ^^ Setting the base_url and keeping the default value
+                #      for relative_uris=True means that the IDs in the generated
+                #      JSON/YAML are kept clean of the path to the input document
+                else:
+                    result = [
+                        save(result_item, base_url=result_item.loadingOptions.fileuri)
+                        for result_item in refactored
+                    ]
+            if "$graph" in result:
+                packed = result
             else:
-                result = [
-                    save(result_item, base_url=result_item.loadingOptions.fileuri)
-                    for result_item in refactored
-                ]
-        if "$graph" in result:
-            packed = result
-        else:
-            with tempfile.TemporaryDirectory() as tmpdirname:
-                path = Path(tmpdirname) / Path(document).name
-                with open(path, "w") as handle:
-                    yaml.dump(result, handle)
-                packed = pack(str(path))
-        output = Path(args.dir) / Path(document).name
-        with output.open("w", encoding="utf-8") as output_filehandle:
-            json.dump(packed, output_filehandle, indent=4)
-    return 0
+                with tempfile.TemporaryDirectory() as tmpdirname:
+                    path = Path(tmpdirname) / Path(document).name
+                    with open(path, "w") as handle:
+                        yaml.dump(result, handle)
+                    packed = pack(str(path))
+            output = Path(args.dir) / Path(document).name
+            output.write_text(json_text(packed, indent=4), encoding="utf-8")
+        except Exception as exc:  # pylint: disable=broad-exception-caught
+            return_code = return_code or 1
+            _logger.exception("Skipping %s due to error.", document, exc_info=exc)
+    return return_code
 
 
 if __name__ == "__main__":
-- 
2.43.0


From f8aa21d5749f2a805f01011ec5aa1a8b64b69692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:15 +0000
Subject: [PATCH 105/121] fix: normalized documents are packed before they are
 upgraded

---
 src/cwl_utils/normalizer.py | 128 +++++++++++++++++++++++-------------
 1 file changed, 84 insertions(+), 44 deletions(-)

diff --git a/src/cwl_utils/normalizer.py b/src/cwl_utils/normalizer.py
index deebb01..734d7d9 100644
--- a/src/cwl_utils/normalizer.py
+++ b/src/cwl_utils/normalizer.py
@@ -9,15 +9,19 @@ import sys
 import tempfile
 from collections.abc import MutableSequence
 from pathlib import Path
+from typing import Any
+from urllib.parse import urljoin, urlparse
 
 from cwlupgrader import main as cwlupgrader
 from ruamel.yaml import YAML
 from schema_salad.runtime import save
-from schema_salad.sourceline import add_lc_filename
+from schema_salad.sourceline import add_lc_filename, cmap
 
 from cwl_utils import cwl_v1_2_expression_refactor
+from cwl_utils.errors import WorkflowException
+from cwl_utils.expression_refactor import absolute_locations, needs_javascript
 from cwl_utils.loghandler import _logger as _cwlutilslogger
-from cwl_utils.pack import pack
+from cwl_utils.pack import pack, relocate_files
 from cwl_utils.parser.cwl_v1_2 import load_document_by_yaml
 from cwl_utils.utils import json_text
 
@@ -74,24 +78,83 @@ def main() -> None:
     sys.exit(run(parse_args(sys.argv[1:])))
 
 
+def upgrade(process: Any, version: str | None = None) -> Any:
+    """
+    Upgrade a packed process to CWL v1.2.
+
+    version: that of the process, if different from what it states
+    """
+    version = version or process["cwlVersion"]
+    steps = process.get("steps", []) if process.get("class") == "Workflow" else []
+    runs = []
+    for step in steps:
+        # one by one, as they can be of various versions
+        runs.append(upgrade(step["run"], step["run"].get("cwlVersion", version)))
+        step["run"] = "#"
+    process["cwlVersion"] = version
+    with tempfile.TemporaryDirectory() as tmpdirname:
+        process = cwlupgrader.upgrade_document(process, tmpdirname, imports=set())
+    if process is None:
+        raise WorkflowException(f"Sorry, CWL {version} can not be upgraded.")
+    for step, run_ in zip(process.get("steps", []), runs):
+        del run_["cwlVersion"]
+        step["run"] = run_
+    return process
+
+
+def normalize(document: str, version: str, args: argparse.Namespace) -> Any:
+    """Pack a document, upgrade it and maybe refactor its expressions."""
+    url = Path(document).resolve().as_uri()
+    if version in ("draft-3", "cwl:draft-3"):
+        yaml = YAML(typ="rt")
+        yaml.preserve_quotes = True
+        with open(document, encoding="utf-8") as doc_handle:
+            result = yaml.load(doc_handle)
+        add_lc_filename(result, document)
+        with tempfile.TemporaryDirectory() as tmpdirname:
+            result = cwlupgrader.upgrade_document(result, tmpdirname, imports=set())
+            path = Path(tmpdirname) / Path(document).name
+            with open(path, "w", encoding="utf-8") as handle:
+                yaml.dump(result, handle)
+            result = pack(str(path))
+    else:
+        result = upgrade(cmap(pack(url)), version)
+    process = load_document_by_yaml(result, url)
+    if args.no_expression_refactoring:
+        pass  # it is a valid document
+    elif not isinstance(process, MutableSequence):
+        refactored, _ = cwl_v1_2_expression_refactor.traverse(
+            process,
+            not args.etools,
+            False,
+            args.skip_some1,
+            args.skip_some2,
+        )
+        refactored = absolute_locations(refactored, url)
+        result = save(
+            refactored,
+            base_url=(refactored.loadingOptions.fileuri or ""),
+        )
+        #   ^^ Setting the base_url and keeping the default value
+        #      for relative_uris=True means that the IDs in the generated
+        #      JSON/YAML are kept clean of the path to the input document
+    elif needs_javascript(result):
+        raise WorkflowException(
+            "Sorry, expressions in $graph documents can not be refactored, "
+            "use --no-expression-refactoring."
+        )
+    return result
+
+
 def run(args: argparse.Namespace) -> int:
     """Primary processing loop."""
     return_code = 0
-    imports: set[str] = set()
-    yaml = YAML(typ="rt")
-    yaml.preserve_quotes = True
     for document in args.inputs:
         _logger.info("Processing %s.", document)
         try:
             with open(document, encoding="utf-8") as doc_handle:
-                result = yaml.load(doc_handle)
-            add_lc_filename(result, document)
-            version = result.get("cwlVersion", None)
-            if version in ("draft-3", "cwl:draft-3", "v1.0", "v1.1"):
-                result = cwlupgrader.upgrade_document(result, args.dir, imports=imports)
-            elif version == "v1.2":
-                pass  # already at target version; no upgrade needed
-            else:
+                version = YAML(typ="safe", pure=True).load(doc_handle).get("cwlVersion")
+            if version not in ("draft-3", "cwl:draft-3", "v1.0", "v1.1", "v1.2"):
                 _logger.error(
                     "Sorry, %s in %s is not a supported CWL version by this tool.",
                     version,
@@ -99,38 +162,15 @@ def run(args: argparse.Namespace) -> int:
                 )
                 return_code = -1
                 continue
-            uri = Path(document).resolve().as_uri()
-            if not args.no_expression_refactoring:
-                refactored, _ = cwl_v1_2_expression_refactor.traverse(
-                    load_document_by_yaml(result, uri),
-                    not args.etools,
-                    False,
-                    args.skip_some1,
-                    args.skip_some2,
-                )
-                if not isinstance(refactored, MutableSequence):
-                    result = save(
-                        refactored,
-                        base_url=(refactored.loadingOptions.fileuri or ""),
-                    )
-                #   ^^ Setting the base_url and keeping the default value
-                #      for relative_uris=True means that the IDs in the generated
-                #      JSON/YAML are kept clean of the path to the input document
-                else:
-                    result = [
-                        save(result_item, base_url=result_item.loadingOptions.fileuri)
-                        for result_item in refactored
-                    ]
-            if "$graph" in result:
-                packed = result
-            else:
-                with tempfile.TemporaryDirectory() as tmpdirname:
-                    path = Path(tmpdirname) / Path(document).name
-                    with open(path, "w") as handle:
-                        yaml.dump(result, handle)
-                    packed = pack(str(path))
+            result = normalize(document, version, args)
             output = Path(args.dir) / Path(document).name
-            output.write_text(json_text(packed, indent=4), encoding="utf-8")
+            source = urlparse(Path(document).resolve().as_uri())
+            relocate_files(result, source, urlparse(output.resolve().as_uri()))
+            if "$schemas" in result:
+                result["$schemas"] = [
+                    urljoin(source.geturl(), schema) for schema in result["$schemas"]
+                ]
+            output.write_text(json_text(result, indent=4), encoding="utf-8")
         except Exception as exc:  # pylint: disable=broad-exception-caught
             return_code = return_code or 1
             _logger.exception("Skipping %s due to error.", document, exc_info=exc)
-- 
2.43.0


From feff8cfc4fbce96b359bcbc6ec90231caf25d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:38 +0000
Subject: [PATCH 106/121] fix: documents of the same name do not overwrite each
 other's results

---
 src/cwl_utils/expression_refactor.py | 5 +++++
 src/cwl_utils/normalizer.py          | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 57f19b1..be1d53c 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -785,6 +785,7 @@ def run(args: list[str]) -> int:
 def refactor(args: argparse.Namespace) -> int:
     """Primary processing loop."""
     return_code = 0
+    written: dict[Path, str] = {}
     yaml = YAML(typ="rt")
     yaml.preserve_quotes = True
     for document in args.inputs:
@@ -826,9 +827,12 @@ def refactor(args: argparse.Namespace) -> int:
                     return_code = -1
                     continue
             output = Path(args.dir) / Path(document).name
+            if written.get(output, document) != document:
+                raise WorkflowException(f"{output} was written for another document.")
             if not modified:
                 if len(args.inputs) > 1:
                     shutil.copyfile(document, output)
+                    written[output] = document
                     continue
                 else:
                     return 7
@@ -857,6 +861,7 @@ def refactor(args: argparse.Namespace) -> int:
                     "#!/usr/bin/env cwl-runner\n"
                 )  # TODO: teach the codegen to do this?
                 yaml.dump(result_json, output_filehandle)
+            written[output] = document
         except Exception as exc:  # pylint: disable=broad-exception-caught
             return_code = 1
             _logger.exception("Skipping %s due to error.", document, exc_info=exc)
diff --git a/src/cwl_utils/normalizer.py b/src/cwl_utils/normalizer.py
index 734d7d9..f6a5af1 100644
--- a/src/cwl_utils/normalizer.py
+++ b/src/cwl_utils/normalizer.py
@@ -149,6 +149,7 @@ def normalize(document: str, version: str, args: argparse.Namespace) -> Any:
 def run(args: argparse.Namespace) -> int:
     """Primary processing loop."""
     return_code = 0
+    written: dict[Path, str] = {}
     for document in args.inputs:
         _logger.info("Processing %s.", document)
         try:
@@ -164,6 +165,8 @@ def run(args: argparse.Namespace) -> int:
                 continue
             result = normalize(document, version, args)
             output = Path(args.dir) / Path(document).name
+            if written.get(output, document) != document:
+                raise WorkflowException(f"{output} was written for another document.")
             source = urlparse(Path(document).resolve().as_uri())
             relocate_files(result, source, urlparse(output.resolve().as_uri()))
             if "$schemas" in result:
@@ -171,6 +174,7 @@ def run(args: argparse.Namespace) -> int:
                     urljoin(source.geturl(), schema) for schema in result["$schemas"]
                 ]
             output.write_text(json_text(result, indent=4), encoding="utf-8")
+            written[output] = document
         except Exception as exc:  # pylint: disable=broad-exception-caught
             return_code = return_code or 1
             _logger.exception("Skipping %s due to error.", document, exc_info=exc)
-- 
2.43.0


From e6aea8e2302f261285bfd675097180546b3de1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:55 +0000
Subject: [PATCH 107/121] fix: expressions in requirements of workflows whose
 steps do not use them are left over

Moving the requirements down did not count as a modification, so that
cwl-expression-refactor took the workflow for one without expressions.
---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 3 ++-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 3 ++-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 3 ++-
 src/cwl_utils/expression_refactor.py          | 7 ++++++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 69b75d1..a4400f0 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -2060,7 +2060,8 @@ def traverse_workflow(
             )
             if step_modified:
                 modified = True
-    cwl_utils.expression_refactor.push_down_requirements(workflow)
+    if cwl_utils.expression_refactor.push_down_requirements(workflow):
+        modified = True
     for step in workflow.steps:
         if not step.id.startswith("_expression"):
             step_modified = traverse_step(
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index ddaac0d..01d9a5f 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -2081,7 +2081,8 @@ def traverse_workflow(
             )
             if step_modified:
                 modified = True
-    cwl_utils.expression_refactor.push_down_requirements(workflow)
+    if cwl_utils.expression_refactor.push_down_requirements(workflow):
+        modified = True
     for step in workflow.steps:
         if not step.id.startswith("_expression"):
             step_modified = traverse_step(
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 8bebbb9..dd913d3 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -2273,7 +2273,8 @@ def traverse_workflow(
             )
             if step_modified:
                 modified = True
-    cwl_utils.expression_refactor.push_down_requirements(workflow)
+    if cwl_utils.expression_refactor.push_down_requirements(workflow):
+        modified = True
     for step in workflow.steps:
         if not step.id.startswith("_expression"):
             step_modified = traverse_step(
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index be1d53c..7576485 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -674,11 +674,13 @@ def absolute_locations(node: Any, uri: str) -> Any:
     return node
 
 
-def push_down_requirements(workflow: Workflow) -> None:
+def push_down_requirements(workflow: Workflow) -> bool:
     """
     Move the requirements with expressions to the processes that they are for.
 
     These expressions are about the inputs of the processes, not of the workflow.
+
+    :return: True if there were any.
     """
     kinds = (EnvVarRequirement, InitialWorkDirRequirement, ResourceRequirement)
 
@@ -689,6 +691,7 @@ def push_down_requirements(workflow: Workflow) -> None:
         return any(isinstance(other, type(req)) for other in requirements or [])
 
     workflow_reqs = [req for req in workflow.requirements or [] if has_expression(req)]
+    modified = bool(workflow_reqs)
     for step in workflow.steps:
         step_name = (step.id or "").split("#")[-1].split("/")[-1]
         if step_name.startswith(("_expression_", "_when_expression_")):
@@ -704,11 +707,13 @@ def push_down_requirements(workflow: Workflow) -> None:
                     copy_of(req)
                 ]
         if step_reqs:
+            modified = True
             step.requirements = [x for x in step.requirements if x not in step_reqs]
     if workflow_reqs:
         workflow.requirements = [
             x for x in workflow.requirements if x not in workflow_reqs
         ]
+    return modified
 
 
 def needs_javascript(node: Any) -> bool:
-- 
2.43.0


From 63ac4a03053147d4be30d3b6494ad09ebb5ce3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:14 +0000
Subject: [PATCH 108/121] fix: load_inputfile of a version fails for YAML
 objects without file names and for imports

The other functions that load job files, and load_inputfile in
cwl_utils.parser.utils, do what is needed for both.
---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 2 ++
 src/cwl_utils/parser/cwl_v1_1_utils.py | 2 ++
 src/cwl_utils/parser/cwl_v1_2_utils.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 0a760cb..78c1404 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -226,6 +226,8 @@ def load_inputfile(
     """Load a CWL v1.0 input file from a serialized YAML string or a YAML object."""
     if baseuri is None:
         baseuri = file_uri(str(Path.cwd())) + "/"
+    if not isinstance(doc, str):
+        return load_inputfile_by_yaml(doc, baseuri, loadingOptions)
     if loadingOptions is None:
         loadingOptions = LoadingOptions()
 
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 4f0bbf2..4ffc8fa 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -318,6 +318,8 @@ def load_inputfile(
     """Load a CWL v1.1 input file from a serialized YAML string or a YAML object."""
     if baseuri is None:
         baseuri = file_uri(str(Path.cwd())) + "/"
+    if not isinstance(doc, str):
+        return load_inputfile_by_yaml(doc, baseuri, loadingOptions)
     if loadingOptions is None:
         loadingOptions = LoadingOptions()
 
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index b870d75..9424dbf 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -353,6 +353,8 @@ def load_inputfile(
     """Load a CWL v1.2 input file from a serialized YAML string or a YAML object."""
     if baseuri is None:
         baseuri = file_uri(str(Path.cwd())) + "/"
+    if not isinstance(doc, str):
+        return load_inputfile_by_yaml(doc, baseuri, loadingOptions)
     if loadingOptions is None:
         loadingOptions = LoadingOptions()
 
-- 
2.43.0


From 96fcbf4543d78943e28ad2ba5c85207d746baaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:08 +0000
Subject: [PATCH 109/121] fix: cwl-graph-split reads documents in the encoding
 of the locale instead of UTF-8

---
 src/cwl_utils/graph_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 4b714fd..5c5d92f 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -89,7 +89,7 @@ def run(args: list[str]) -> int:
     """Split the packed CWL at the path of the first argument."""
     options = arg_parser().parse_args(args)
 
-    with open(options.cwlfile) as source_handle:
+    with open(options.cwlfile, encoding="utf-8") as source_handle:
         graph_split(
             source_handle,
             Path(options.outdir),
-- 
2.43.0


From 1a47d2f34744957c7eea5e65cbb2b42991b70668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:45 +0000
Subject: [PATCH 110/121] fix: cwl-pack cannot print documents with characters
 that the locale does not have

---
 src/cwl_utils/pack_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwl_utils/pack_cli.py b/src/cwl_utils/pack_cli.py
index 2d6365f..9e549e3 100644
--- a/src/cwl_utils/pack_cli.py
+++ b/src/cwl_utils/pack_cli.py
@@ -3,6 +3,7 @@
 """Pack a CWL document into a single JSON document."""
 
 import argparse
+import io
 import sys
 
 from cwl_utils.pack import pack
@@ -37,6 +38,9 @@ def run(args: argparse.Namespace) -> int:
     packed = pack(args.cwlfile)
     serialized = json_text(packed, indent=args.indent)
     if args.outfile is None:
+        if isinstance(sys.stdout, io.TextIOWrapper):
+            # like the file, whatever the locale
+            sys.stdout.reconfigure(encoding="utf-8")
         sys.stdout.write(serialized)
         sys.stdout.write("\n")
     else:
-- 
2.43.0


From eb874c6c7ddf678ce16ee11a1bbd44fea95facb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:48 +0000
Subject: [PATCH 111/121] fix: pre-release versions of Node.js cannot be used

---
 src/cwl_utils/sandboxjs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 4a208ff..0e09511 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -144,11 +144,13 @@ class NodeJSEngine(JSEngine):
         https://github.com/nodejs/node/blob/master/CHANGELOG.md#nodejs-changelog
         """
         # parse nodejs version into int Tuple: 'v4.2.6\n' -> [4, 2, 6]
+        # (also of pre-releases: 'v23.0.0-rc.1\n' -> [23, 0, 0])
         current_version_str = subprocess.check_output(  # nosec
             [working_alias, "-v"], text=True
         )
         current_version = [
-            int(v) for v in current_version_str.strip().strip("v").split(".")
+            int(v)
+            for v in current_version_str.strip().strip("v").split("-")[0].split(".")
         ]
         minimum_node_version = [
             int(v) for v in self.minimum_node_version_str.split(".")
-- 
2.43.0


From f8bfae7be867992af92a10af922258e7c26aaee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:48 +0000
Subject: [PATCH 112/121] fix: force_docker_pull gives engines other than
 singularity an option they do not have

---
 src/cwl_utils/sandboxjs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 0e09511..719e05e 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -375,7 +375,8 @@ class NodeJSEngine(JSEngine):
                     if need_singularity or need_docker or force_docker_pull:
                         # pull node:alpine docker container
                         nodejs_pull_commands = [container_engine, "pull"]
-                        if force_docker_pull:
+                        # the others always look for a newer image, and have no such option
+                        if force_docker_pull and container_engine == "singularity":
                             nodejs_pull_commands.append("--force")
                         nodejs_pull_commands.append(nodeimg)
                         cwd = (
-- 
2.43.0


From 80612594375c8f04856b7768429ba45614787b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:48 +0000
Subject: [PATCH 113/121] fix: the Node.js image is pulled with udocker
 although it is there

---
 src/cwl_utils/sandboxjs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 719e05e..35eee5e 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -369,8 +369,8 @@ class NodeJSEngine(JSEngine):
                     need_singularity = (
                         container_engine == "singularity" and not singularityimgs
                     )
-                    need_docker = container_engine != "singularity" and (
-                        len(dockerimgs.split("\n")) <= 1
+                    need_docker = (
+                        container_engine != "singularity" and not dockerimgs.strip()
                     )
                     if need_singularity or need_docker or force_docker_pull:
                         # pull node:alpine docker container
-- 
2.43.0


From 8bdb34559e7eac2a21bd3e795e2ee362c64ab4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:10 +0000
Subject: [PATCH 114/121] fix: singularity pulls the path of the cached Node.js
 image when force_docker_pull

---
 src/cwl_utils/sandboxjs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 35eee5e..c3597f9 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -347,7 +347,7 @@ class NodeJSEngine(JSEngine):
                                 singularityimgs = glob.glob(
                                     str(Path.cwd() / "node_alpine.sif")
                                 )
-                            if singularityimgs:
+                            if singularityimgs and not force_docker_pull:
                                 nodeimg = singularityimgs[0]
                         case "udocker":
                             matches = re.search(
-- 
2.43.0


From 4a98c2a0ae18db2770950fb53b9605c3c2e8e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:58 +0000
Subject: [PATCH 115/121] fix: one-line documents from the web are taken for
 symbolic links, and links with spaces fail

---
 src/cwl_utils/utils.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index ec8cb64..1297542 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -64,14 +64,8 @@ def _is_github_symbolic_link(base_url: urllib.parse.ParseResult, contents: str)
     if base_url.scheme in ("file", ""):
         return False
 
-    idx = contents.find("\n")
-    if idx > -1:
-        return False
-
-    if "." not in contents:
-        return False
-
-    return True
+    # not other text of a single line, like minified JSON or an expression
+    return re.fullmatch(r"[^\n{}()\[\]<>\"'$;:,=]*\.\w+", contents) is not None
 
 
 def bytes2str_in_dicts(
@@ -125,7 +119,9 @@ def load_linked_file(
             f"{new_url.geturl()}: found file-like string in contents.\n"
             f"Treating as github symbolic link to {contents}\n"
         )
-        return load_linked_file(new_url, contents, is_import=is_import)
+        return load_linked_file(
+            new_url, urllib.parse.quote(contents), is_import=is_import
+        )
 
     if is_import:
         try:
-- 
2.43.0


From 65afaab4c6b7bd463fa064b7dc59c73de06c1747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:58 +0000
Subject: [PATCH 116/121] fix: expressions in hints are not refactored

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 16 ++--
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 16 ++--
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 16 ++--
 src/cwl_utils/expression_refactor.py          | 90 ++++++++++++++-----
 4 files changed, 91 insertions(+), 47 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index a4400f0..5fa2a4c 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1011,8 +1011,6 @@ def process_level_reqs(
     # - the Process is passed to replace_expr_with_etool for later searching for JS expressionLibs
     # - in addition to adding the input to the step for the ETool/CTool result,
     #   add it to the Process.inputs as well
-    if not process.requirements:
-        return False
     modified = False
     target_process = step.run
     inputs = cwl_utils.expression_refactor.empty_inputs(process, _DEFAULT_CWL_VERSION)
@@ -1022,7 +1020,9 @@ def process_level_reqs(
     if not step.id:
         return False
     step_name = step.id.split("#", 1)[-1]
-    for req_index, req in enumerate(process.requirements):
+    for kind, req_index, req in cwl_utils.expression_refactor.effective_requirements(
+        process
+    ):
         if isinstance(req, cwl_utils.parser.EnvVarRequirement) and req.envDef:
             for env_index, envDef in enumerate(req.envDef):
                 if envDef.envValue:
@@ -1043,7 +1043,7 @@ def process_level_reqs(
                             replace_etool,
                             process=process,
                         )
-                        target_process.requirements[req_index].envDef[
+                        getattr(target_process, kind)[req_index].envDef[
                             env_index
                         ].envValue = f"$(inputs._envDef{env_index})"
                         generated_envVar_reqs.append((etool_id, env_index))
@@ -1069,7 +1069,7 @@ def process_level_reqs(
                             process=process,
                         )
                         setattr(
-                            target_process.requirements[req_index],
+                            getattr(target_process, kind)[req_index],
                             attr,
                             f"$(inputs._{attr})",
                         )
@@ -1099,7 +1099,7 @@ def process_level_reqs(
                         replace_etool,
                         process=process,
                     )
-                    target_process.requirements[
+                    getattr(target_process, kind)[
                         req_index
                     ].listing = "$(inputs._iwdr_listing)"
                     step.in_.append(
@@ -1138,7 +1138,7 @@ def process_level_reqs(
                             replace_etool,
                             process=process,
                         )
-                        target_process.requirements[req_index].listing[
+                        getattr(target_process, kind)[req_index].listing[
                             listing_index
                         ] = f"$(inputs._iwdr_listing_{listing_index})"
                         generated_iwdr_reqs.append(
@@ -1179,7 +1179,7 @@ def process_level_reqs(
                                 process=process,
                             )
                             setattr(
-                                target_process.requirements[req_index].listing[
+                                getattr(target_process, kind)[req_index].listing[
                                     listing_index
                                 ],
                                 attr,
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 01d9a5f..9075658 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1022,8 +1022,6 @@ def process_level_reqs(
     # - the Process is passed to replace_expr_with_etool for later searching for JS expressionLibs
     # - in addition to adding the input to the step for the ETool/CTool result,
     #   add it to the Process.inputs as well
-    if not process.requirements:
-        return False
     modified = False
     target_process = step.run
     inputs = cwl_utils.expression_refactor.empty_inputs(process, "v1.1")
@@ -1033,7 +1031,9 @@ def process_level_reqs(
     if not step.id:
         return False
     step_name = step.id.split("#", 1)[-1]
-    for req_index, req in enumerate(process.requirements):
+    for kind, req_index, req in cwl_utils.expression_refactor.effective_requirements(
+        process
+    ):
         if isinstance(req, cwl_utils.parser.EnvVarRequirement) and req.envDef:
             for env_index, envDef in enumerate(req.envDef):
                 if envDef.envValue:
@@ -1054,7 +1054,7 @@ def process_level_reqs(
                             replace_etool,
                             process=process,
                         )
-                        target_process.requirements[req_index].envDef[
+                        getattr(target_process, kind)[req_index].envDef[
                             env_index
                         ].envValue = f"$(inputs._envDef{env_index})"
                         generated_envVar_reqs.append((etool_id, env_index))
@@ -1080,7 +1080,7 @@ def process_level_reqs(
                             process=process,
                         )
                         setattr(
-                            target_process.requirements[req_index],
+                            getattr(target_process, kind)[req_index],
                             attr,
                             f"$(inputs._{attr})",
                         )
@@ -1110,7 +1110,7 @@ def process_level_reqs(
                         replace_etool,
                         process=process,
                     )
-                    target_process.requirements[
+                    getattr(target_process, kind)[
                         req_index
                     ].listing = "$(inputs._iwdr_listing)"
                     step.in_.append(
@@ -1149,7 +1149,7 @@ def process_level_reqs(
                             replace_etool,
                             process=process,
                         )
-                        target_process.requirements[req_index].listing[
+                        getattr(target_process, kind)[req_index].listing[
                             listing_index
                         ] = f"$(inputs._iwdr_listing_{listing_index})"
                         generated_iwdr_reqs.append(
@@ -1190,7 +1190,7 @@ def process_level_reqs(
                                 process=process,
                             )
                             setattr(
-                                target_process.requirements[req_index].listing[
+                                getattr(target_process, kind)[req_index].listing[
                                     listing_index
                                 ],
                                 attr,
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index dd913d3..fa4602b 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1137,8 +1137,6 @@ def process_level_reqs(
     # - the Process is passed to replace_expr_with_etool for later searching for JS expressionLibs
     # - in addition to adding the input to the step for the ETool/CTool result,
     #   add it to the Process.inputs as well
-    if not process.requirements:
-        return False
     modified = False
     target_process = step.run
     inputs = cwl_utils.expression_refactor.empty_inputs(process, _DEFAULT_CWL_VERSION)
@@ -1148,7 +1146,9 @@ def process_level_reqs(
     if not step.id:
         return False
     step_name = step.id.split("#", 1)[-1]
-    for req_index, req in enumerate(process.requirements):
+    for kind, req_index, req in cwl_utils.expression_refactor.effective_requirements(
+        process
+    ):
         if isinstance(req, cwl_utils.parser.EnvVarRequirement) and req.envDef:
             for env_index, envDef in enumerate(req.envDef):
                 if envDef.envValue:
@@ -1169,7 +1169,7 @@ def process_level_reqs(
                             replace_etool,
                             process=process,
                         )
-                        target_process.requirements[req_index].envDef[
+                        getattr(target_process, kind)[req_index].envDef[
                             env_index
                         ].envValue = f"$(inputs._envDef{env_index})"
                         generated_envVar_reqs.append((etool_id, env_index))
@@ -1195,7 +1195,7 @@ def process_level_reqs(
                             process=process,
                         )
                         setattr(
-                            target_process.requirements[req_index],
+                            getattr(target_process, kind)[req_index],
                             attr,
                             f"$(inputs._{attr})",
                         )
@@ -1225,7 +1225,7 @@ def process_level_reqs(
                         replace_etool,
                         process=process,
                     )
-                    target_process.requirements[
+                    getattr(target_process, kind)[
                         req_index
                     ].listing = "$(inputs._iwdr_listing)"
                     step.in_.append(
@@ -1264,7 +1264,7 @@ def process_level_reqs(
                             replace_etool,
                             process=process,
                         )
-                        target_process.requirements[req_index].listing[
+                        getattr(target_process, kind)[req_index].listing[
                             listing_index
                         ] = f"$(inputs._iwdr_listing_{listing_index})"
                         generated_iwdr_reqs.append(
@@ -1305,7 +1305,7 @@ def process_level_reqs(
                                 process=process,
                             )
                             setattr(
-                                target_process.requirements[req_index].listing[
+                                getattr(target_process, kind)[req_index].listing[
                                     listing_index
                                 ],
                                 attr,
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 7576485..122f378 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -12,7 +12,7 @@ import shutil
 import sys
 from collections.abc import MutableMapping, MutableSequence, Sequence
 from pathlib import Path
-from typing import Any, Protocol, cast, Literal, overload
+from typing import Any, Protocol, cast, get_args, Literal, overload
 from urllib.parse import urljoin
 
 from ruamel.yaml.main import YAML
@@ -256,6 +256,22 @@ def find_expressionLib(
     return None
 
 
+def effective_requirements(process: Process) -> list[tuple[str, int, Any]]:
+    """
+    List the requirements of a process, and the hints that these do not override.
+
+    :return: ("requirements" or "hints", index, requirement)
+    """
+    found: list[tuple[str, int, Any]] = []
+    for kind in ("requirements", "hints"):
+        for index, req in enumerate(getattr(process, kind) or []):
+            if kind == "requirements" or not any(
+                isinstance(other, type(req)) for other in process.requirements or []
+            ):
+                found.append((kind, index, req))
+    return found
+
+
 def generate_etool_from_expr2(
     expr: str,
     cwlVersion: Literal["v1.0", "v1.1", "v1.2"],
@@ -690,29 +706,57 @@ def push_down_requirements(workflow: Workflow) -> bool:
     def has_kind(requirements: Any, req: Any) -> bool:
         return any(isinstance(other, type(req)) for other in requirements or [])
 
-    workflow_reqs = [req for req in workflow.requirements or [] if has_expression(req)]
-    modified = bool(workflow_reqs)
-    for step in workflow.steps:
-        step_name = (step.id or "").split("#")[-1].split("/")[-1]
-        if step_name.startswith(("_expression_", "_when_expression_")):
-            continue  # made by us
-        step_reqs = [req for req in step.requirements or [] if has_expression(req)]
-        for req in step_reqs + [
-            req for req in workflow_reqs if not has_kind(step.requirements, req)
-        ]:
-            if isinstance(
-                step.run, CommandLineTool | Workflow
-            ) and not has_kind(step.run.requirements, req):
-                step.run.requirements = list(step.run.requirements or []) + [
-                    copy_of(req)
+    def typed(hint: Any, step: WorkflowStep) -> Any:
+        """Get the requirement that is meant; the hints of steps are of any type."""
+        if isinstance(hint, MutableMapping):
+            for cls in (cls for union in kinds for cls in get_args(union)):
+                if (
+                    cls.__name__ == hint.get("class")
+                    and cls.__module__ == type(step).__module__
+                ):
+                    return cls.fromDoc(hint, step.id, step.loadingOptions)
+        return hint
+
+    modified = False
+    for kind in ("requirements", "hints"):
+        workflow_reqs = [x for x in getattr(workflow, kind) or [] if has_expression(x)]
+        modified |= bool(workflow_reqs)
+        for step in workflow.steps:
+            step_name = (step.id or "").split("#")[-1].split("/")[-1]
+            if step_name.startswith(("_expression_", "_when_expression_")):
+                continue  # made by us
+            reqs = [typed(req, step) for req in getattr(step, kind) or []]
+            step_reqs = [req for req in reqs if has_expression(req)]
+            for req in step_reqs + [
+                req for req in workflow_reqs if not has_kind(reqs, req)
+            ]:
+                if isinstance(step.run, CommandLineTool | Workflow) and not has_kind(
+                    getattr(step.run, kind), req
+                ):
+                    setattr(
+                        step.run,
+                        kind,
+                        list(getattr(step.run, kind) or []) + [copy_of(req)],
+                    )
+            if step_reqs:
+                modified = True
+                setattr(step, kind, [x for x in reqs if x not in step_reqs])
+            if kind == "hints" and isinstance(step.run, CommandLineTool | Workflow):
+                # those that the requirements override
+                unused = [
+                    hint
+                    for hint in step.run.hints or []
+                    if has_expression(hint) and has_kind(step.run.requirements, hint)
                 ]
-        if step_reqs:
-            modified = True
-            step.requirements = [x for x in step.requirements if x not in step_reqs]
-    if workflow_reqs:
-        workflow.requirements = [
-            x for x in workflow.requirements if x not in workflow_reqs
-        ]
+                if unused:
+                    modified = True
+                    step.run.hints = [x for x in step.run.hints if x not in unused]
+        if workflow_reqs:
+            setattr(
+                workflow,
+                kind,
+                [x for x in getattr(workflow, kind) if x not in workflow_reqs],
+            )
     return modified
 
 
-- 
2.43.0


From 53348728ab052f7cab2365caaf08b00d458a3407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:12 +0000
Subject: [PATCH 117/121] fix: the fragments of references in documents from
 the web are lost when they are resolved

---
 src/cwl_utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 1297542..3bdc80d 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -242,7 +242,7 @@ def resolved_path(
         else:
             # Remote relative path
             return urllib.parse.urlparse(
-                urllib.parse.urljoin(base_url.geturl(), link_url.path)
+                urllib.parse.urljoin(base_url.geturl(), link_url.geturl())
             )
             # We need urljoin because we need to resolve relative links in a
             # platform independent manner
-- 
2.43.0


From 1b780741e3348db4062effa6b561c399cd0b3727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:06 +0000
Subject: [PATCH 118/121] fix: user-defined types in a file behind a symbolic
 link from the web are not found

---
 src/cwl_utils/schemadef.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 8f5a886..3bc125f 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -47,6 +47,9 @@ def build_user_defined_type_dict(
                     if k is None:
                         raise RuntimeError(f"In file {path_prefix} type missing name")
                     user_defined_types[f"{path_prefix}#{k}"] = v
+                    # the file may be a link, references to the type name the link
+                    link_url = utils.resolved_path(base_url, entry["$import"])
+                    user_defined_types[f"{link_url.geturl()}#{k}"] = v
     return _build_user_defined_type_dict(cwl, base_url, user_defined_types)
 
 
@@ -101,6 +104,9 @@ def _build_user_defined_type_dict(
                 if k is None:
                     raise RuntimeError(f"In file {path_prefix} type missing name")
                 user_defined_types[f"{path_prefix}#{k}"] = v
+                # the file may be a link, references to the type name the link
+                link_url = utils.resolved_path(base_url, schema["$import"])
+                user_defined_types[f"{link_url.geturl()}#{k}"] = v
 
         else:
             path_prefix = base_url.geturl()
-- 
2.43.0


From 106e1be66b856ac4696ce57f95505a147959b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:25 +0000
Subject: [PATCH 119/121] fix: references to types in imported maps of
 parameters are resolved against the wrong file

---
 src/cwl_utils/pack.py  | 2 +-
 src/cwl_utils/utils.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 64eda29..c31d0c6 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -201,7 +201,7 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
                         and node.get("class") == "SchemaDefRequirement"
                     ):
                         continue
-                    node = utils.absolute_links(node, this_base_url)
+                    node = utils.absolute_links({k: node}, this_base_url)[k]
                     cwl[k] = resolve_imports(node, this_base_url)
                     relocate_files(cwl[k], this_base_url, base_url)
                     continue
diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 3bdc80d..c8dba9e 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -159,6 +159,9 @@ def absolute_links(node: Any, base_url: urllib.parse.ParseResult) -> Any:
             result[k] = resolved_path(base_url, v).geturl()
         elif k in ("type", "items"):
             result[k] = _absolute_type(v)
+        elif k in ("inputs", "outputs", "fields") and isinstance(v, dict):
+            # a map of names, to types or to whole parameters
+            result[k] = {name: _absolute_type(value) for name, value in v.items()}
         elif k == "default":
             result[k] = v
         else:
-- 
2.43.0


From 18a84b129c09377fc396736f5e3b98184347e144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:46 +0000
Subject: [PATCH 120/121] fix: results of asynchronous engines are not awaited
 in threads, or when their methods are not coroutine functions

---
 src/cwl_utils/expression.py | 50 +++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/src/cwl_utils/expression.py b/src/cwl_utils/expression.py
index f377ccf..ece00bd 100644
--- a/src/cwl_utils/expression.py
+++ b/src/cwl_utils/expression.py
@@ -119,6 +119,21 @@ def scanner(scan: str) -> tuple[int, int] | None:
     return None
 
 
+def _finished(
+    result: CWLOutputType | Awaitable[CWLOutputType],
+) -> CWLOutputType | None:
+    """Wait for the result of an engine with asynchronous methods."""
+    if not inspect.isawaitable(result):
+        return cast(CWLOutputType, result)
+    try:
+        loop = asyncio.get_event_loop()
+    except RuntimeError:
+        # in another thread, or after asyncio.run()
+        loop = asyncio.new_event_loop()
+        asyncio.set_event_loop(loop)
+    return cast(CWLOutputType, loop.run_until_complete(result))
+
+
 def evaluator(
     js_engine: JSEngine,
     ex: str,
@@ -138,39 +153,20 @@ def evaluator(
             return None
         try:
             if is_cwl_parameter_context_key(first_symbol):
-                if inspect.iscoroutinefunction(js_engine.regex_eval):
-                    return asyncio.get_event_loop().run_until_complete(
-                        cast(
-                            Awaitable[CWLOutputType],
-                            js_engine.regex_eval(
-                                first_symbol,
-                                ex[first_symbol_end:-1],
-                                cast(CWLOutputType, obj[first_symbol]),
-                                **kwargs,
-                            ),
-                        )
-                    )
-                else:
-                    return cast(
-                        CWLOutputType,
-                        js_engine.regex_eval(
-                            first_symbol,
-                            ex[first_symbol_end:-1],
-                            cast(CWLOutputType, obj[first_symbol]),
-                            **kwargs,
-                        ),
+                return _finished(
+                    js_engine.regex_eval(
+                        first_symbol,
+                        ex[first_symbol_end:-1],
+                        cast(CWLOutputType, obj[first_symbol]),
+                        **kwargs,
                     )
+                )
             else:
                 raise WorkflowException(f"{first_symbol} is unexpected.")
         except WorkflowException as werr:
             expression_parse_exception = werr
     if fullJS:
-        if inspect.iscoroutinefunction(js_engine.eval):
-            return asyncio.get_event_loop().run_until_complete(
-                cast(Awaitable[CWLOutputType], js_engine.eval(ex, jslib, **kwargs))
-            )
-        else:
-            return cast(CWLOutputType, js_engine.eval(ex, jslib, **kwargs))
+        return _finished(js_engine.eval(ex, jslib, **kwargs))
     else:
         if expression_parse_exception is not None:
             raise JavascriptException(
-- 
2.43.0


From 10fc36a35e6e1bc9b719249bb1f9ddf2b81b8d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:23 +0000
Subject: [PATCH 121/121] fix: engines that were killed, too old, or of threads
 that ended were never let go

---
 src/cwl_utils/sandboxjs.py | 39 +++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index c3597f9..bc197fc 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -93,6 +93,35 @@ class JSEngine(ABC):
     ) -> CWLOutputType | Awaitable[CWLOutputType]: ...
 
 
+def _discard(
+    process: "subprocess.Popen[str]", processes: Deque["subprocess.Popen[str]"]
+) -> None:
+    """Stop a process of which there is no more use, and let go of its pipes."""
+    process.kill()
+    process.wait()
+    for pipe in (process.stdin, process.stdout, process.stderr):
+        if pipe:
+            with suppress(OSError):
+                pipe.close()
+    with suppress(ValueError):
+        processes.remove(process)
+
+
+class _ThreadEngines(dict[Any, "subprocess.Popen[str]"]):
+    """The processes for the evaluations of a thread, which end with it."""
+
+    def __init__(self, processes: Deque["subprocess.Popen[str]"]) -> None:
+        super().__init__()
+        self.processes = processes
+
+    def __del__(self) -> None:
+        try:
+            while self:
+                _discard(self.popitem()[1], self.processes)
+        except TypeError:
+            pass
+
+
 class NodeJSEngine(JSEngine):
     localdata = threading.local()
 
@@ -175,7 +204,7 @@ class NodeJSEngine(JSEngine):
                   engine invocation.
         """
         if not hasattr(self.localdata, "procs"):
-            self.localdata.procs = {}
+            self.localdata.procs = _ThreadEngines(self.processes_to_kill)
 
         if js_console and context is not None:
             raise NotImplementedError("js_console=True and context not implemented")
@@ -197,6 +226,9 @@ class NodeJSEngine(JSEngine):
         proc_key = js_engine if context is None else (js_engine, context)
         nodejs = self.localdata.procs.pop(proc_key, None)
 
+        if nodejs is not None and nodejs.poll() is not None:
+            _discard(nodejs, self.processes_to_kill)
+
         if nodejs is None or nodejs.poll() is not None:
             js_engine_code = files("cwl_utils").joinpath(js_engine).read_text("utf-8")
 
@@ -260,8 +292,7 @@ class NodeJSEngine(JSEngine):
         timer.join()
         if killed or not process_finished():
             # The engine was killed or has died: no other evaluation may meet it.
-            nodejs.kill()
-            nodejs.wait()
+            _discard(nodejs, self.processes_to_kill)
 
         stdin_buf.close()
         stdoutdata = stdout_buf.getvalue()[: -len(self.process_finished_str) - 1]
@@ -322,6 +353,8 @@ class NodeJSEngine(JSEngine):
                 pass
 
         if nodejs is None or nodejs is not None and not required_node_version:
+            if nodejs is not None:
+                _discard(nodejs, self.processes_to_kill)
             try:
                 nodeimg = "node:alpine"
                 if container_engine == "singularity":
-- 
2.43.0

