"""C08 the JavaScript sandbox: escape attempts, an object-graph crawl, and pollution followed by victims."""
import copy, json, os, threading
import common
from common import scale
from cwl_utils.expression import do_eval
from cwl_utils import sandboxjs

C = common.Check("C08", "hostile JavaScript evaluated in the real engine (every escape idiom x the way it gets to run x plain or "
                 "console engine x expression or library), then victim evaluations in the same engine whose results and "
                 "built-ins are compared with those of a fresh engine; non-trivial = the hostile code ran; distinct by code "
                 "and victim")
SECRET = "verif-secret-canary-7731"

# the payload: given a candidate for the host's Function constructor (or the host's process), do harm and say so
PAYLOAD = """
function harm(p, how) {
  var s = "ESCAPED " + how;
  try { s += " env=" + p.env.VERIF_CANARY; } catch (e) {}
  try { p.getBuiltinModule("fs").writeFileSync(CANARY, s); } catch (e) {
    try { p.mainModule.require("fs").writeFileSync(CANARY, s); } catch (e) {
      try { p.binding("fs"); } catch (e) {} } }
  return s;
}
function tryF(F, how) {
  var p = null;
  try { p = F("return (typeof process === 'object' && process) ? process : (typeof require === 'function' ? {env: {}, mainModule: {require: require}} : null)")(); } catch (e) {}
  return p ? harm(p, how) : "contained";
}
function tryObj(o, how) { var f; try { f = o.constructor.constructor; } catch (e) { return "contained"; } return tryF(f, how); }
""".strip()

IDIOMS = {
 "globalThis": "tryObj(globalThis, 'globalThis')",
 "this-sloppy": "tryObj(Function('return this')(), 'sloppy this')",
 "global-proto": "tryObj(Object.getPrototypeOf(globalThis), 'proto of global')",
 "inputs": "tryObj(typeof inputs === 'undefined' ? {} : inputs, 'inputs')",
 "self": "tryObj(typeof self === 'undefined' || self === null ? {} : self, 'self')",
 "arguments": "(function(){ return tryObj(arguments, 'arguments'); })()",
 "callee": "(function(){ try { return tryObj(arguments.callee.caller, 'caller'); } catch (e) { return tryObj(e, 'caller error'); } })()",
 "sloppy-caller": "Function('tryObj', 'var f = arguments.callee, r = \"contained\"; for (var i = 0; i < 20 && f; i++) { r = tryObj(f, \"caller chain\"); if (r != \"contained\") return r; try { f = f.caller; } catch (e) { return tryObj(e, \"caller chain error\"); } } return r;')(tryObj)",
 "stack-overflow": "(function(){ try { (function f(){ f(); })(); } catch (e) { return tryObj(e, 'RangeError'); } })()",
 "type-error": "(function(){ try { null.x; } catch (e) { return tryObj(e, 'TypeError'); } })()",
 "syntax-error": "(function(){ try { Function('}')(); } catch (e) { return tryObj(e, 'SyntaxError'); } })()",
 "json-error": "(function(){ try { JSON.parse('{'); } catch (e) { return tryObj(e, 'JSON error'); } })()",
 "async-function": "tryF((async function(){}).constructor('return 1').constructor.constructor, 'AsyncFunction')",
 "generator": "tryF(Object.getPrototypeOf(function*(){}).constructor.constructor, 'GeneratorFunction')",
 "reflect": "tryF(function(c){ return Reflect.construct(Function, [c]); }, 'Reflect.construct')",
 "indirect-eval": "tryF(function(c){ return function(){ return (0, eval)('(function(){' + c + '})()'); }; }, 'indirect eval')",
 "stack-trace-sites": "(function(){ var r = 'contained'; Error.prepareStackTrace = function(e, st){ for (var i = 0; i < st.length; i++) { var q; try { q = tryObj(st[i], 'CallSite'); if (q != 'contained') r = q; } catch (x) { q = tryObj(x, 'CallSite error'); } ['getThis','getFunction','getEvalOrigin'].forEach(function(m){ try { var o = st[i][m](); if (o) { q = tryObj(o, m); if (q != 'contained') r = q; } } catch (x) { q = tryObj(x, m + ' error'); if (q != 'contained') r = q; } }); } return ''; }; new Error().stack; return r; })()",
 "console": "(typeof console === 'undefined') ? 'contained' : [console, console.log, console.error, console.warn, console.dir].map(function(o){ return o ? tryObj(o, 'console') : 'contained'; }).join(' ')",
 "console-result": "(function(){ try { var x = console.log('%o', {}); return x ? tryObj(x, 'console result') : 'contained'; } catch (e) { return tryObj(e, 'console error'); } })()",
 "console-args": "(function(){ var r = 'contained'; var o = {get a(){ r = tryObj(this, 'getter this'); return 1; }, toString: function(){ var q = tryObj(arguments, 'toString arguments'); if (q != 'contained') r = q; return 's'; }}; try { console.log('%s %d %j', o, o, o, o); } catch (e) { r = tryObj(e, 'console error'); } return r; })()",
 "console-overflow": "(function(){ var r = 'contained'; function f(n){ try { f(n + 1); } catch (e) { try { console.log('x'); } catch (e2) { var q = tryObj(e2, 'console overflow'); if (q != 'contained') r = q; } } } try { f(0); } catch (e) {} return r; })()",
 "inspect-custom": "(function(){ var r = 'contained'; var o = {}; o[Symbol.for('nodejs.util.inspect.custom')] = function(d, opt, insp){ var q = insp ? tryObj(insp, 'inspect') : tryObj(opt, 'inspect options'); if (q != 'contained') r = q; return ''; }; try { console.log(o); console.error('%o', o); } catch (e) {} return r; })()",
 "proxy-console": "(function(){ var r = 'contained'; var h = {}; ['get','has','ownKeys','getPrototypeOf','getOwnPropertyDescriptor'].forEach(function(t){ h[t] = function(){ for (var i = 0; i < arguments.length; i++) { if (arguments[i] && typeof arguments[i] !== 'string') { var q = tryObj(arguments[i], 'trap ' + t); if (q != 'contained') r = q; } } return Reflect[t].apply(Reflect, arguments); }; }); try { console.log(new Proxy({}, h)); } catch (e) { r = tryObj(e, 'proxy console'); } return r; })()",
 "wasm": "(function(){ try { new WebAssembly.Module(new Uint8Array([1])); } catch (e) { return tryObj(e, 'wasm error'); } return tryObj(WebAssembly, 'wasm'); })()",
 "shared-memory": "tryObj(new SharedArrayBuffer(8), 'SharedArrayBuffer')",
 "intl": "(typeof Intl === 'undefined') ? 'contained' : tryObj(new Intl.DateTimeFormat(), 'Intl')",
 "names": "['process','require','module','exports','global','Buffer','setTimeout','setInterval','setImmediate','fetch','XMLHttpRequest','WebSocket','__filename','__dirname','importScripts','queueMicrotask','structuredClone','performance','navigator','crypto'].filter(function(n){ return Function('return typeof ' + n)() !== 'undefined'; }).map(function(n){ return 'ESCAPED name ' + n; }).join() || 'contained'",
 "import-meta": "(function(){ try { return tryObj(Function('return import.meta')(), 'import.meta'); } catch (e) { return tryObj(e, 'import.meta error'); } })()",
}
# run by the engine while it prints what was thrown
THROWN = {
 "throw-inspect": "throw {[Symbol.for('nodejs.util.inspect.custom')]: function(d, o, i){ return [this, d, o, o && o.stylize, i].map(function(x){ return x ? tryObj(x, 'inspect of thrown') : ''; }).join(); }};",
 "throw-error-inspect": "var e = new Error('x'); e[Symbol.for('nodejs.util.inspect.custom')] = function(d, o, i){ return tryObj(i, 'inspect of error'); }; throw e;",
 "throw-nested-inspect": "throw {a: [{inspect: function(d, o, i){ return tryObj(i, 'old inspect'); }, [Symbol.for('nodejs.util.inspect.custom')]: function(d, o, i){ return tryObj(i, 'nested inspect'); }}]};",
 "throw-proxy": "var h = {}; Object.getOwnPropertyNames(Reflect).forEach(function(t){ h[t] = function(){ for (var i = 0; i < arguments.length; i++) { if (arguments[i] && typeof arguments[i] !== 'string') tryObj(arguments[i], 'thrown trap ' + t); } return Reflect[t].apply(Reflect, arguments); }; }); throw new Proxy(function(){}, h);",
 "throw-getters": "var o = {}; ['name','message','stack','constructor','toString','cause','errors','code','inspect'].forEach(function(k){ Object.defineProperty(o, k, {enumerable: true, get: function(){ try { return tryObj(arguments.callee.caller, 'getter caller'); } catch (x) { return tryObj(x, 'getter caller error'); } }}); }); throw Object.setPrototypeOf(o, Error.prototype);",
 "throw-tag": "throw {get [Symbol.toStringTag](){ return tryObj(this, 'tag'); }, constructor: {name: {toString: function(){ return tryObj(arguments, 'ctor name'); }}}};",
}
# promise based ones report through a variable read when the result is serialised
ASYNC = {
 "dynamic-import-error": "import('fs').then(function(m){}, function(e){ R = tryObj(e, 'import() error'); });",
 "dynamic-import-module": "import('fs').then(function(m){ R = 'ESCAPED imported fs'; m.writeFileSync(CANARY, R); }, function(e){});",
 "dynamic-import-promise": "var pr = import('fs'); R = tryObj(pr, 'import() promise'); pr.catch(function(){});",
 "promise-callback": "Promise.resolve(1).then(function(){ R = tryObj(globalThis, 'in promise callback'); });",
 "promise-rejection": "Promise.reject({get stack(){ R = tryObj(this, 'rejection'); }});",
 "wasm-async": "WebAssembly.compile(new Uint8Array([0])).then(function(){}, function(e){ R = tryObj(e, 'wasm async error'); });",
}
# ways to get the idiom to run
WRAPS = {
 "direct": "return (%s);",
 "eval": "return eval(%s);",
 "function": "return Function('tryObj','tryF','inputs','self','return ' + %s)(tryObj, tryF, {}, {});",
 "toJSON": "return {toJSON: function(){ return (%s); }};",
 "getter": "return {get x(){ return (%s); }};",
 "proxy": "return new Proxy({}, {get: function(t, k){ return k === 'a' ? (%s) : undefined; }, ownKeys: function(){ return ['a']; }, getOwnPropertyDescriptor: function(){ return {value: 1, enumerable: true, configurable: true}; }});",
 "throw": "throw (%s);",
 "throw-lazy": "throw {get stack(){ return (%s); }, get message(){ return (%s); }, toString: function(){ return (%s); }};",
 "nested-json": "return [[{a: {toJSON: function(k){ return (%s); }}}]];",
}

CRAWL = """
(function(){
  var seen = new Set(), todo = [[Function('return this')(), 'global']], foreign = [], names = [], n = 0;
  while (todo.length) {
    var it = todo.pop(), o = it[0], path = it[1];
    if ((typeof o !== 'object' && typeof o !== 'function') || o === null || seen.has(o)) continue;
    seen.add(o); n++;
    var c; try { c = o.constructor; } catch (e) { c = null; }
    var root = o, hops = 0;
    while (Object.getPrototypeOf(root) !== null && hops++ < 50) root = Object.getPrototypeOf(root);
    if (typeof o === 'function' && !(o instanceof Function) && o !== Function.prototype) foreign.push(path);
    else if (hops && root !== Object.prototype) foreign.push(path);
    todo.push([Object.getPrototypeOf(o), path + '.__proto__']);
    var keys = Reflect.ownKeys(o).sort(function(a, b){ return String(a) < String(b) ? -1 : 1; });
    for (var i = 0; i < keys.length; i++) {
      var k = keys[i], d = Object.getOwnPropertyDescriptor(o, k);
      names.push(path + '.' + String(k) + ':' + (d.writable ? 'w' : '-') + (d.enumerable ? 'e' : '-') + (d.configurable ? 'c' : '-')
        + ':' + ('value' in d ? typeof d.value + (typeof d.value === 'function' ? Function.prototype.toString.call(d.value).replace(/\\s+/g, ' ').slice(0, 80) :
           typeof d.value === 'string' || typeof d.value === 'number' ? String(d.value).slice(0, 40) : '') : (d.get ? 'g' : '') + (d.set ? 's' : '')));
      if ('value' in d) todo.push([d.value, path + '.' + String(k)]);
      else { if (d.get) todo.push([d.get, path + '.get ' + String(k)]); if (d.set) todo.push([d.set, path + '.set ' + String(k)]); }
    }
  }
  names.sort();
  return {foreign: foreign.slice(0, 20), names: names, objects: n};
})()
""".strip()

POLLUTE = {
 "global-var": "Function('leak1 = 77; var leak2 = 78; this.leak3 = 79')(); globalThis.leak4 = 80;",
 "object-proto": "Object.prototype.polluted = 'yes'; Object.prototype.toJSON = function(){ return 'polluted'; };",
 "array-map": "Array.prototype.map = function(){ return ['polluted']; }; Array.prototype.push = function(){};",
 "string-proto": "String.prototype.toJSON = function(){ return 'polluted'; }; String.prototype.split = null;",
 "json": "JSON.stringify = function(){ return '\"polluted\"'; }; JSON.parse = null;",
 "number": "Number.prototype.toJSON = function(){ return 666; }; Number.prototype.toString = function(){ return '666'; };",
 "function-proto": "Function.prototype.call = function(){ return 'polluted'; }; Function.prototype.apply = null;",
 "error": "Error.prepareStackTrace = function(){ return 'polluted'; }; Error.stackTraceLimit = 0;",
 "inputs": "if (typeof inputs === 'object' && inputs) { inputs.v = 'polluted'; inputs.n = {}; if (inputs.l) inputs.l.push(1); delete inputs.f; }",
 "freeze": "Object.freeze(Object.prototype); Object.freeze(Array.prototype); Object.preventExtensions(globalThis);",
 "delete": "delete globalThis.Math; delete globalThis.JSON; delete Array.prototype.join;",
 "math": "Math.max = function(){ return 'polluted'; }; Math.random = function(){ return 0.5; };",
 "getter": "Object.defineProperty(Object.prototype, 'v', {get: function(){ return 'polluted'; }, set: function(){}, configurable: true});",
 "setter": "Object.defineProperty(Object.prototype, 'value', {get: function(){ return 'polluted'; }, configurable: true});",
 "promise": "Promise.prototype.then = function(){ return 'polluted'; };",
 "later": "Promise.resolve().then(function(){ globalThis.leak5 = 1; Object.prototype.late = 1; });",
 "regexp": "/(polluted)/.exec('polluted'); RegExp.prototype.exec = function(){ return null; };",
 "symbol": "Array.prototype[Symbol.iterator] = function(){ return {next: function(){ return {done: true}; }}; };",
 "console": "if (typeof console !== 'undefined') { try { console.log = null; } catch (e) {} try { console.toJSON = 1; } catch (e) {} }",
 "eval": "try { globalThis.eval = function(){ return 'polluted'; }; } catch (e) {} globalThis.Function = null;",
 "throw": "Object.prototype.stack = 'polluted'; Object.prototype.message = 'polluted'; throw {};",
}
VICTIMS = [
 ("[typeof leak1, typeof leak2, typeof leak3, typeof leak4, typeof leak5, typeof lib1]", ["undefined"] * 6),
 ("[({}).polluted === undefined, ({}).late === undefined, Object.keys({a: 1}), [1, 2].map(function(x){ return x + 1; })]", [True, True, ["a"], [2, 3]]),
 ("JSON.stringify({a: [1, 'x', null]}) + JSON.parse('[1]')[0]", '{"a":[1,"x",null]}1'),
 ("'a,b'.split(',').concat([1].concat([2]))", ["a", "b", 1, 2]),
 ("[Math.max(1, 2), (5).toString(), [1, 2].join('-'), Math.random() !== Math.random()]", [2, "5", "1-2", True]),
 ("{v: 1, value: 'x', s: 'str', n: 3, t: true, z: null}", {"v": 1, "value": "x", "s": "str", "n": 3, "t": True, "z": None}),
 ("(function(){ var a = []; for (var x of [1, 2]) { a.push(x); } return [a, eval('1+1'), Function('return 3')()]; })()", [[1, 2], 2, 3]),
 ("(function(){ try { null.x; } catch (e) { return [e instanceof TypeError, typeof e.stack, e.stack.indexOf('polluted')]; } })()", [True, "string", -1]),
 ("(function(){ function f(){ return this === undefined ? 'u' : this.q; } return [f.call({q: 1}), f.apply({q: 2})]; })()", [1, 2]),
 ("[/(a)/.exec('a')[0], RegExp.$1]", ["a", "a"]),
 ("RegExp.$1", ""),
 ("(function(){ Object.prototype.own = 1; globalThis.own2 = 2; return [({}).own, own2]; })()", [1, 2]),
]


def escaped(v):
    return isinstance(v, str) and "ESCAPED" in v or isinstance(v, (list, dict)) and "ESCAPED" in json.dumps(v) or SECRET in json.dumps(v)


def run(kind, code, canary, console, r, inputs=None):
    """Run hostile code through do_eval; returns the result or the text of the error."""
    head = "var CANARY = %s; var R = 'contained';\n%s\n" % (json.dumps(canary), PAYLOAD)
    inputs = inputs if inputs is not None else {"v": "value", "n": {"a": [1, 2]}, "l": [1, 2], "f": {"class": "File", "path": "/x"}}
    req = {"class": "InlineJavascriptRequirement", "expressionLib": [head]}
    if kind == "lib":
        req["expressionLib"] = [head, "function lib1(){ %s }" % code]
        ex = "${ return lib1(); }"
    else:
        ex = "${ %s }" % code
    before = copy.deepcopy(inputs)
    me = {"class": "File", "path": "/p"}
    try:
        got = do_eval(ex, inputs, [req], "/o", "/t", {"cores": 1}, context=me, timeout=60, cwlVersion="v1.2", js_console=console)
        r.see("hostile returned")
    except Exception as e:
        got = "error: " + str(e)
        # the message quotes the expression itself
        got = got[got.find("stderr was"):] if "stderr was" in got else ""
        got = "\n".join(l for l in got.splitlines() if "tryObj" not in l and "ESCAPED name" not in l and "'ESCAPED" not in l and '"ESCAPED' not in l)
        r.see("hostile failed")
    if inputs != before or me != {"class": "File", "path": "/p"}:
        r.violation("inputs-modified", code=code, before=before, after=inputs)
    return got


def attack(item, r):
    seed, name, wname, kind, console = item
    canary = os.path.join(C.scratch, "canary_%s_%s_%s_%s_%s" % (seed, name, wname, kind, console))
    if name in THROWN:
        code = THROWN[name]
    elif name in ASYNC:
        code = ASYNC[name] + {"toJSON": " return {toJSON: function(){ return R; }};", "throw-lazy": " throw {get stack(){ return R; }};",
                              "direct": " return [{toJSON: function(){ return R; }}];"}[wname]
    else:
        w, x = WRAPS[wname], IDIOMS[name]
        code = w.replace("%s", json.dumps(x) if wname in ("eval", "function") else x)
    got = run(kind, code, canary, console, r)
    r.case([code, kind, console], True, {"code": code[:200], "result": str(got)[:100]})
    r.see("escape attempts")
    if escaped(got) or os.path.exists(canary):
        r.violation("dynamic-import-error" if name == "dynamic-import-error" else "escape-" + name, wrap=wname, kind=kind, console=console,
                    got=got, file_written=os.path.exists(canary), code=code)


def direct(expr, console=False):
    return sandboxjs.get_js_engine().eval("(%s)" % expr, timeout=60, js_console=console)


def crawl(console):
    out = direct(CRAWL, console)
    return out["foreign"], out["names"], out["objects"]


def pollution(item, r):
    seed, n, console = item
    rng = C.rng("pollution", seed)
    eng = sandboxjs.get_js_engine()
    eng.localdata.__dict__.clear()
    foreign, fresh, objects = crawl(console)
    r.see("objects crawled", objects)
    if foreign:
        r.violation("foreign-object-reachable", console=console, paths=foreign)
    for i in range(n):
        names = rng.sample(sorted(POLLUTE), rng.choice([1, 1, 2, 4]))
        code = " ".join(POLLUTE[x] for x in names if x != "throw") + (POLLUTE["throw"] if "throw" in names else " return 1;")
        run(rng.choice(["expr", "lib"]), code, "/nonexistent/canary", console, r)
        r.see("pollutions")
        for e, want in rng.sample(VICTIMS, 4):
            r.case([names, e, console], True)
            try:
                got = direct(e, console)
            except Exception as x:
                got = repr(x)
            r.see("victims")
            if got != want or type(got) is not type(want):
                r.violation("victim-affected", after=names, victim=e, got=got, want=want, console=console)
        if rng.random() < 0.2:
            foreign, now, objects = crawl(console)
            r.see("objects crawled", objects)
            if now != fresh:
                r.violation("builtins-changed", after=names, difference=sorted(set(now) ^ set(fresh))[:10])
            if foreign:
                r.violation("foreign-object-reachable", console=console, paths=foreign)


def chunk(item, r):
    with common.quiet():
        if item[0] == "attack":
            for x in item[1]:
                attack(x, r)
        else:
            pollution(item[1], r)


def body(c):
    os.environ["VERIF_CANARY"] = SECRET
    rng = c.rng("plan")
    plan = []
    for name in list(IDIOMS) + list(THROWN) + list(ASYNC):
        for w in (WRAPS if name in IDIOMS else ("direct",) if name in THROWN else ("toJSON", "throw-lazy", "direct")):
            for kind in ("expr", "lib"):
                for console in (False, True):
                    plan.append((common.SEED, name, w, kind, console))
    rng.shuffle(plan)
    items = [("attack", plan[i::12]) for i in range(12)]
    items += [("pollution", (s, scale(25, 500), s % 3 == 2)) for s in range(scale(9, 30))]
    c.add(common.pool_run(chunk, items, limit=scale(300, 1500)))
    c.need("escape attempts", 500)
    c.need("hostile returned", 200)
    c.need("victims", 500)
    c.need("pollutions", 150)
    c.need("objects crawled", 5000)


if __name__ == "__main__":
    common.main(C, body)
