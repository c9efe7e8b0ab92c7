'use strict';
// Constructs that are uncommon or that an instrumenter is tempted to treat on
// their own: trivial bodies, forwarding constructors, constant tests, odd member
// names, empty statements, chained assignments, shadowed builtins, hoisting ...
// A second list holds scripts only. Every hole takes every filler (quick: the core).
const g = require('./gen.js');
const { leafTree } = require('./corpus.js');

const M = [
  // constructors and inheritance
  'class A% { constructor(b) { log(b); } } class B% extends A% { constructor(b) { super(b); } } new B%($E);',
  'class A% { constructor(...b) { log(b); } } class B% extends A% { constructor(...b) { super(...b); } } new B%(c(@), $E);',
  'class A% { constructor() { log(new.target.name); } } class B% extends A% { constructor() { super(); } } class C% extends B% {} new C%(); new A%();',
  'class B% extends Array { constructor() { super(...arguments); } } log(new B%(c(@), $E).length);',
  'class B% extends Object { constructor(b) { super(b); this.b = b; } m() { return this.b; } } log(new B%($E).m());',
  'class B% extends Object { constructor() { const r = super(); log(r === this); } } new B%();',
  'class B% extends Object { constructor() { (() => super())(); log(this instanceof B%); } } new B%();',
  'class B% extends Object { constructor() { if ($E) super(); else { super(); log(1); } } } new B%();',
  'class B% { constructor() { return { a: $E }; } } log(new B%().a);',
  'class B% { constructor() {} } log(new B%() instanceof B%);', 'class B% {} log(typeof new B%());', 'class B% extends null { static m() { return $E; } } log(B%.m());',
  'class A% { m(a) { return a; } get g() { return 1; } set g(v) { log(v); } } class B% extends A% { m(a) { return super.m(a); } get g() { return super.g; } set g(v) { super.g = v; } } const b% = new B%(); log(b%.m($E), b%.g); b%.g = c(@);',
  'class A% { static m() { return this.k; } } class B% extends A% { static k = $E; static m() { return super.m(); } } log(B%.m());',
  'const o% = { __proto__: { m() { return c(@); } }, m() { return super.m() || $E; } }; log(o%.m());',
  // trivial bodies
  'function f%() {} log(f%());', 'const f% = () => {}; log(f%($E));', 'const f% = x => x; log(f%($E));', 'const f% = () => ({}); log(f%());', 'const f% = () => ({ a: $E }); log(f%().a);', 'const f% = async () => {}; f%().then(log);', 'const f% = () => void 0; log(f%());', 'const f% = () => null; log(f%());', 'const f% = () => [], h% = () => `t`, i% = () => /r/; log(f%().length, h%(), i%().source);',
  'function* f%() {} log([...f%()].length);', 'async function* f%() {} f%().next().then((x) => log(x.done));', 'class K% { m() {} static m() {} get g() {} set g(v) {} async a() {} *h() {} #p() {} } const k% = new K%(); log(k%.m(), K%.m(), k%.g); k%.g = 1; k%.a(); k%.h().next();',
  'const o% = { m() {}, get g() { return this.x; }, set g(v) { this.x = v; }, x: $E }; o%.g = c(@); log(o%.g, o%.m());', 'class K% { get g() { return this.x; } set g(v) { this.x = v; } } const k% = new K%(); k%.g = $E; log(k%.g);',
  'function f%() { return; } log(f%());', 'function f%() { return arguments.length; } log(f%($E));', 'function f%() { "use strict"; } log(f%());', 'function f%() { "use strict"; "another"; $F } f%();', 'const f% = function () { return this; }; log(f%.call($E));', 'function f%() { ; } f%();', 'function f%() { {} } f%();', 'const f% = () => { return; }; f%();', 'const f% = () => () => () => $E; log(f%()()());', 'const f% = (a) => (b) => { return (c_) => a || b || c_; }; log(f%($E)(c(@))(c(@)));', 'function f%() { return f%; } log(f%()().name);',
  // constants and trivial initialisers
  'var a% = undefined, b% = null, d% = 1, e% = "s", f% = {}, g% = [], h% = true, i% = void 0, j% = /r/, k% = `t`, l% = -1, m% = 1n, p% = a%; log(b%, d%, e%, k%, l%, p%);', 'let a% = 1; let b% = a%; const d% = b%; log(d%);', 'const a% = this; log(a%);',
  'if (true) $S', 'if (false) $S else $S', 'if (1) { $S }', 'if (!0) $S', 'while (false) $L', 'do { $S } while (false);', 'for (; false;) $S', 'for (const x of []) $S', 'true && $E; false || $E; null ?? $E;', 'log("" || $E, 1 && $E, 0 ?? $E, undefined ?? $E);', 'log(true ? $E : $E, 0 ? $E : $E);', 'log($E || true, $E && false, $E ?? null);', '1; "s"; `t`; null; this; /r/; 1n; true; void 0;', 'switch (1) { case 1: $S case 2: $S }', 'switch (true) { case $E: $S break; case !$E: $S }', 'log(typeof undeclared_ !== "undefined" && $E, typeof undeclared_ === "undefined" || $E);', 'a% : if (true) { if (c(@)) break a%; $S }', 'log(!0 && !1 || $E, !!$E || !$E);',
  'function f%(a, b = a, d = b || $E, e = () => a && d) { return e(); } log(f%($E));', 'function f%(a = undefined, b = null, d = {}, e = [], h = 1, i = -1, j = "s", k = `t`, l = a, m = function () {}, n = () => {}, q = class {}) { return [b, h, i, j, k].length; } log(f%());', 'function f%({ a = 1, b: { d = 2 } = {}, ...e } = {}, [h = 3, [i = 4] = []] = []) { return a + d + h + i; } log(f%(), f%({ a: $E }, [c(@)]));', 'const f% = ({ a = $E, b = $E } = { a: $E }) => a || b; log(f%(), f%({}), f%({ a: 0, b: 0 }));', 'const f% = (a = $E, ...b) => b.length; log(f%.length, f%(), f%(1, 2));', 'class K% { m(a = $E, { b = $E } = {}) { return a; } set s([v = $E]) { log(v); } static m(a = this) { return a === K%; } } new K%().m(); new K%().s = []; log(K%.m());', 'function f%(a, a1 = arguments.length) { return a1; } log(f%($E));', 'function f%(a = (() => { $S return 1; })()) { return a; } f%();', 'let a% = 1; (function (b = (a% = 2)) { log(b); })(); log(a%);',
  // member names
  'class K% { get = $E; set = 2; static = 3; static static = 4; async = 5; "q r" = 6; 7 = $E; [c(@) + "k"] = 8; #p = 9; static #q = $E; static async = 10; static get = 11; m() { return this.#p; } static m() { return this.#q; } } const k% = new K%(); log(k%.get, k%.static, K%.static, k%.async, k%["q r"], k%[7], k%.m(), K%.m());',
  'class K% { get() { return $E; } set() { $F } static() { return 1; } async() { return 2; } static static() { return 3; } await() { return 4; } of() { return 5; } } const k% = new K%(); log(k%.get(), k%.set(), k%.static(), k%.async(), K%.static(), k%.of());',
  'const o% = { get: $E, set: 1, async: 2, get get() { return $E; }, set set(v) { log(v); }, async async() { return 1; }, *gen() { yield $E; }, async *ag() {}, "a b"() { return $E; }, 7() { return 8; }, [c(@) + "x"]: $E, "__proto__": null, "constructor"() {} }; log(o%.get); o%.set = c(@); log(o%["a b"](), o%[7](), [...o%.gen()]);',
  'class K% { "constructor"() { log(1); } } new K%();', 'class K% { ["constructor"]() { log(1); } } new K%().constructor();', 'class K% { static constructor() { return $E; } } log(K%.constructor());', 'class K% { static name = $E; static length = 2; } log(K%.name, K%.length);', 'class K% { *[Symbol.iterator]() { yield $E; } static async *[Symbol.asyncIterator]() { yield 1; } get [Symbol.toStringTag]() { return "t"; } } log([...new K%()], String(new K%()));',
  'class K% { #a; #b = $E; static has(x) { return #a in x && #b in x; } get a() { return this.#a ??= $E; } set a(v) { this.#a = v; } inc() { return this.#b++; } static #s() { return 1; } static s() { return K%.#s(); } get #g() { return 2; } g() { return this.#g; } } const k% = new K%(); log(K%.has(k%), K%.has({}), k%.a, k%.g(), K%.s()); k%.a = c(@); k%.inc();',
  'class K% { static { this.a = $E; } static b = this.a; static { $S } static c = () => this.a; } log(K%.b, K%.c());', 'class K% { a = this; b = () => this.a === this; c = function () { return this; }; d = arguments_ => 1; e; static f; "g"; ["h"]; } const k% = new K%(); log(k%.b(), k%.c() === k%, "e" in k%, "f" in K%, "g" in k%);', 'class K% { a = 1; b = this.a + 1; d = $E || this.b; } log(new K%().d);', 'const { a: a%, ...r% } = { a: 1, b: $E, get d() { return $E; } }; log(r%.b, r%.d);', 'log({ __proto__: { z: $E } }.z, { ["__proto__"]: 1 }.z);', 'log(Object.getOwnPropertyNames(class { static a() {} static b = 1; static get d() { return 1; } }).join());',
  // chained and destructuring assignment
  'let a%, b%, d%; a% = b% = d% = $E; log(a%, b%);', 'let a% = 1, b% = 2; [a%, b%] = [b%, a%]; log(a%, b%);', 'let a%; [a% = $E] = it(@); log(a%);', 'let a%; ({ q: a% = $E } = o(@)); log(a%);', 'const o% = {}; ({ q: o%.x = $E, ["p"]: o%["y"] = $E } = o(@)); log(o%.x, o%.y);', 'const o% = {}; [o%.a = $E, o%[c(@)] = $E, ...o%.r] = it(@); log(o%.a);', 'let a% = 0; a% ||= $E; a% &&= $E; a% ??= $E; a% += a% -= $E; a% **= 2; a% >>>= 1; log(a%);', 'let a%; a% ??= () => $E; log(a%.name, a%());', 'let a%; a% = function () {}; log(a%.name); a% = class {}; log(a%.name); a% = () => {}; log(a%.name); (a%) = () => {}; log(a%.name);', 'const o% = { a: () => 1, b: function () {}, d: class {}, ["e" + 1]: () => 2, "f g": () => 3, 5: () => 4, h: (0, () => 5) }; log(o%.a.name, o%.b.name, o%.d.name, o%.e1.name, o%["f g"].name, o%[5].name, o%.h.name);', 'const a% = () => {}, b% = function () {}, d% = class {}, e% = async () => {}, f% = (() => {}), h% = (0, () => {}), i% = $E || (() => {}); log(a%.name, b%.name, d%.name, e%.name, f%.name, h%.name, i%.name);', 'let i% = 0; const o% = {}; o%[i%++] = i%++ + o%[i%--] || $E; log(i%);', 'let i% = 0; log(i%++ + ++i%, i%-- - --i%, -i% ** 2 || $E);'.replace('-i% ** 2', '(-i%) ** 2'),
  // loops
  'for (;;) { if (c(@)) break; $L break; }', 'for (let i = 0, n = 2; i < n; i++) $L', 'for (let i = 0, f = () => i; i < 2; i++) { log(f()); $L }', 'for (const f% = () => $E; c(@);) log(f%());', 'const o% = {}; for (o%.x of it(@)) $L log(o%.x);', 'let a%, b%; for ([a%, b% = $E] of [it(@)]) { log(b%); $L }', 'let a%; for ({ q: a% = $E } of [o(@), o(@)]) $L', 'let a%; for (a% of it(@)) ; log(a%);', 'for (const x of it(@)) ;', 'while (c(@)) ;', 'for (; c(@);) ;', 'do ; while (c(@));', 'if (c(@)) ; else ;', 'l%: ;', 'for (var i% = ("x" in o(@)); c(@);) { log(i%); $L }', 'for (let i% = ("x" in o(@)) || $E, j% = 0; j% < 1; j%++) log(i%);', 'for (const k in null) $L', 'for (const k in { a: 1, b: 2 }) { if ($E) continue; log(k); }', 'for (let [a, b] of [[1, $E], [2, c(@)]]) { log(() => a, b); }', 'let i% = 0; while (i%++ < 3) { if (i% === 2) continue; $L }', 'let i% = 3; do { i%--; if (c(@)) continue; $L } while (i% && $E);', 'a%: b%: for (const x of it(@)) { for (const y of it(@)) { if ($E) continue a%; if (c(@)) break b%; $L } }', 'for (const x of (function* () { try { yield 1; yield 2; } finally { log("closed"); $S } })()) { if (c(@)) break; $L }', 'const [a%] = (function* () { try { yield $E; } finally { log("closed"); } })();', 'for (let i = 0; i < 2; i++) for (let i = 0; i < 2; i++) { log(i); $L }', 'for (const x of [1, 2]) switch (x) { case 1: continue; default: $S break; }', 'for (let x = $E, y; y = c(@);) { log(x, y); break; }', 'for (var x%, y% = $E; c(@);) ;',
  // switch
  'switch (c(@)) { default: $S }', 'switch (c(@)) { case 0: $S default: $S case 2: $S }', 'switch (c(@)) { case c(@): case c(@): default: case c(@): $S }', 'switch (c(@)) { case 0: { let a = $E; log(a); } case 1: { let a = 2; log(a); break; } }', 'switch (c(@)) { case 0: switch (c(@)) { case 0: break; default: $S } break; default: $S }', 'switch (c(@)) { case 0: function f%() { return $E; } default: log(f%()); }', 'switch (c(@)) { case 0: class K% {} break; default: $S }', 'switch ($E && $E) { case $E || $E: $S break; case ($E ? 0 : 1): $S }', 'switch (c(@)) { case 0: if ($E) break; $S break; case 1: ; case 2: {} }', 'l%: switch (c(@)) { default: for (;;) { if (c(@)) break l%; $L break; } case 1: $S }', 'for (const x of it(@)) { switch (c(@)) { case 0: continue; case 1: break; } $L }', '(function () { switch (c(@)) { case 0: return $E; case 1: throw $E; default: return; } })();', 'switch (c(@)) { case 0: var a% = $E; case 2: const b% = $E; log(b%); }', 'switch (log(c(@))) { case (() => $E)(): $S }',
  // try
  'try { } finally { $S }', 'try { } catch { $S }', 'log((() => { try { return $E; } finally { $S } })());', 'log((() => { try { return 1; } finally { return 2; } })());', 'l%: try { break l%; } finally { $S }', 'for (const x of it(@)) { try { continue; } finally { $L } }', 'try { try { $S } finally { $S } } catch (e) { log(e); } finally { $S }', 'try { throw [c(@)]; } catch ([e = $E]) { log(e); }', 'try { throw 1; } catch (e) { var e = $E; log(e); }', 'try { throw $E; } catch { $S }', 'try { null.x; } catch (e) { log(e instanceof TypeError); $S }', 'try { try { throw c(@); } catch (e) { throw $E; } } catch (e) { log(e); }', '(function f() { try { f(); } catch (e) { } })(), log(1);'.replace('(function f() { try { f(); } catch (e) { } })()', 'c(@)'), '(async () => { try { await p(@); } catch (e) { log(e.message); $AS } finally { $AS } })();', '(function* () { try { yield 1; } finally { yield $G; $GS } })().next();',
  // bindings
  'f%(); function f%() { log(1); $F } ', 'log(typeof f%, typeof v%); var v% = $E; function f%() {}', 'try { log(x%); } catch (e) { log(e.name); } let x% = $E;', 'try { x% = 1; } catch (e) { log(e.name); } const x% = $E;', 'try { new K%(); } catch (e) { log(e.name); } class K% {}', 'const x% = 1; try { x% = $E; } catch (e) { log(e.name); }', 'let x% = 1; { let x% = $E; log(x%); { const x% = 3; log(x%); } } log(x%);', 'const f% = () => x%; const x% = $E; log(f%());', 'var x% = 1; var x% = $E; log(x%);', 'var x% = 1; (function () { log(x%); var x% = $E; log(x%); })();', '(function f%() { try { f% = 1; } catch (e) { log(e.name); } log(typeof f%); })();', 'const K% = class Q { static m() { return Q === K%; } }; log(K%.m());', '{ function f%() { return $E; } log(f%()); }', '{ let a = $E; { var b% = a; } log(b%); }', 'if (c(@)) { function f%() { return 1; } log(f%()); } else { let f% = $E; log(f%); }', 'let u% = c(@), undefined_ = 2; log(u% ?? undefined_);', 'var a% = a% || $E; log(a%);', 'const fs% = []; for (var i% = 0; i% < 2; i%++) { let j = i%; fs%.push(() => j + i%); } log(fs%.map((f) => f()));', 'let a% = $E; let f% = () => a%++; let b% = f(); function f() { return f%(); } log(a%, b%);', 'const a% = $E, b% = a% && (() => b%), d% = [b%]; log(d%.length);',
  // expressions
  'log(a%?.b); var a%;', 'log(n(@)?.x.y?.z, n(@)?.[$E]?.(c(@)), n(@)?.(...it(@)));', 'log((n(@)?.x).y);', 'log(delete n(@)?.x);', 'log(n(@)?.call?.(null, $E));', 'log(new (c(@) ? Array : Object)($E));', 'log(new Array, new Array(1).length, new (class { constructor(a) { this.a = a; } })($E).a);', 'const o% = { K: class { constructor(a) { log(a); } } }; new o%.K($E); new (o%.K)(c(@)); new o%["K"];', 'log(`${$E}${`${$E}`}`, `a\\n${c(@)}\\``);', 'log(String.raw`a\\n${$E}`);', 'log((($E)), ((c(@), $E)));', 'log(void $E, typeof $E, !$E, ~$E, +$E, - -$E);', 'log([, $E, , c(@), ,].length, [...it(@), ...[$E]].length);', 'log({ ...o(@), a: $E, ...{ b: $E } }.a);', 'log($E, ...[$E], ...it(@), $E);', 'log(c(@) === $E, c(@) != $E, c(@) > $E, c(@) << 1, c(@) % 2, 2 ** c(@), c(@) ** 2, "x" in { x: $E });', 'log(((a, b) => a + b)(...[$E, c(@)]));', 'log((() => { $S })(), (() => { return $E; })());', 'log((function () { return [].slice.call(arguments); })($E, $E).length);', 'log((function () { return (() => arguments[0])(); })($E));', 'log((() => { try { return (() => { throw $E; })(); } catch (e) { return e; } })());', 'log(await0 => await0, async => async, (of) => of, (get, set) => get);', 'const async = (x) => x, of = $E, get = 1, set = 2, from = 3, as = 4, type = 5; log(async(of), get, set, from, as, type);'.replace('const async', 'const async'), 'log(c(@) ? c(@) ? $E : $E : c(@) ? $E : $E);', 'log((c(@), c(@)) ? ($E, $E) : ($E));', 'log(c(@) && c(@) ? c(@) || c(@) : c(@) ?? c(@));', 'log((c(@) ? $E : $E) && (c(@) ? $E : $E), (c(@) && $E) ? 1 : 2);', 'log(c(@) || (() => c(@) && $E)() || c(@));', 'log((a% = $E) && a%, a% || (a% = $E)); var a%;', 'log(c(@) && c(@) && c(@) && $E && c(@) && c(@));', 'log(c(@) || c(@) && c(@) || $E && (c(@) || c(@)) || c(@));', 'log((c(@) ?? c(@)) || (c(@) ?? $E), (c(@) || c(@)) ?? $E);', 'log([c(@) && 1, { a: c(@) || 2, [c(@) && "k"]: 3 }, `${c(@) || $E}`].length);', 'log(-(c(@) && $E), !(c(@) || $E), typeof (c(@) && 1), (c(@) && $E) + (c(@) || 1));', 'log((c(@) && o(@)).x, (c(@) && [1])[0], (n(@) || log)($E), new (c(@) && Array || Object)().length, tag`${c(@) && $E}`);', '(c(@) || $E) ? c(@) : c(@);', 'c(@) && $E, c(@) || $E;', 'c(@) ? $E : $E;', '!(c(@) && $E);', '(() => $E)() || c(@);', 'c(@) && (v% = $E); var v%;', 'c(@) && delete o(@).x;', 'log(((c(@))) && (((c(@) || (c(@))))));', 'log(c(@) && (c(@), c(@)) || (c(@) && c(@), c(@)));', 'log(/[/]/.test("/") && $E, 4 / c(@) / 2, "a".replace(/a/g, $E));', 'log(1n + 2n, 0x1f, 0b1, 0o7, 1_000, .5, 1e3, "\\u{1f600}", "\\ud800".length, "\\x41\\0", \'"\', "\'");', 'log(new.target === undefined_); var undefined_;'.replace('new.target === undefined_', '(function () { return new.target; })()'), 'function f%() { return new.target ? $E : 2; } log(f%()); new f%();', 'log(Reflect.construct(function () { log(new.target.name); }, [], class Q% {}) instanceof Object);', 'log([1, 2].map((x, i, { length }) => x && i || length), [3].reduce((a, b) => a + b, $E));', 'log([[1, 2], [3]].flatMap(([a, b = $E]) => b));', 'log(Object.entries({ a: $E }).map(([k, v]) => `${k}=${v}`).join());', 'setTimeout_ = (f) => f(); var setTimeout_; setTimeout_(() => { $S }); setTimeout_(function () { $S });', 'Promise.resolve($E).then((x) => { $S return x; }).then(log, log).finally(() => { log(1); });', 'Promise.resolve().then(() => log(2)); log(1); $S', 'new Promise((r, j) => { if ($E) r(1); else j(2); }).then(log, log);', 'Promise.all([p(@), p(@)]).then(log, (e) => log(e.message));', 'const f% = async (x) => { for (const y of it(@)) { await x; $AS } return y%; }; var y% = 1; f%(p(@)).then(log, (e) => log(e.message));', '(async () => { const [a, b = await p(@)] = it(@); log(a, b); })().catch((e) => log(e.message));', '(async () => { await p(@) && await p(@) || await p(@); log(3); })().catch((e) => log(e.message));', '(async () => { switch (await p(@)) { case await p(@): $AS break; default: $AS } })().catch((e) => log(e.message));', '(async () => { while (await p(@)) { $AS break; } do { $AS } while (await p(@) && 0); })().catch((e) => log(e.message));', '(async (a = p(@), { b = a } = {}) => { log(await b); })().catch((e) => log(e.message));', 'const g% = (function* () { const a = yield $E; const b = (yield a) || $E; return [a, b]; })(); g%.next(); g%.next(c(@)); log(g%.next(c(@)).value);', 'const g% = (function* () { try { yield 1; } catch (e) { log(e); yield $E; } })(); g%.next(); log(g%.throw(5).value);', 'const g% = (function* () { yield* (function* () { yield $E; return 2; })(); yield* it(@); })(); log([...g%]);', 'const g% = function* () { yield; yield $E, $E; const x = yield* []; return x; }; log([...g%()]);', 'const o% = { *g() { yield this.x; }, x: $E, async a() { return await this.x; } }; log([...o%.g()]); o%.a().then(log);',
  // long else-if chains, nested ifs
  'if (c(@)) $S else if (c(@)) $S else if (c(@)) $S else $S', 'if (c(@)) { if (c(@)) { if (c(@)) $S } else $S } else if (c(@)) {} else { if ($E) $S }', 'if (c(@)) if (c(@)) $S else $S', 'if (c(@)) for (const x of it(@)) $L else while (c(@)) $L', 'if (c(@)) try { $S } catch {} else l%: { $S }', 'if (c(@)) var a% = $E; else var b% = $E; log(a%, b%);', 'if (c(@)) { } else $S', 'if (c(@)) { ; } else { ; }', 'if (c(@), $E) $S', 'if (!(c(@) || $E)) $S else $S', 'if ((() => $E)()) $S', 'if (c(@)) throw_(); else $S function throw_() { throw 1; }', 'if (v% = $E) log(v%); var v%;', 'while (c(@)) if (c(@)) { $L } else break;', 'if (c(@)) return_(); function return_() { if (c(@)) return; else return $E; }',
  // modules
  'import d%, { e as f%, "x y" as g% } from "m"; import * as n% from "n"; import "q"; f%($E); d%(@); n%.g(@); g%(@); $S', '$S import { e% } from "m"; e%($E);', 'export { a% as b%, a% as "x y", a% as default }; let a% = $E; export * from "m"; export * as ns% from "m"; export { z as y% } from "m";', 'export let b% = () => a%++, a% = $E; b%(); export { a% as d% };', 'export const b% = () => a%, d% = class { m() { return $E; } }, a% = $E; log(b%.name, d%.name, new d%().m());', 'export const [a% = $E, { b: b% = $E } = {}] = it(@);', 'export let a% = () => $E; log(a%.name, a%());', 'export var a% = x => x; a%($E);', 'export let a% = class {}; log(a%.name);', 'export let a% = class { m() { return $E; } }, b% = function () { $F }; log(a%.name, b%.name);', 'export const a% = x => x, b% = class {}; log(a%.name, a%($E), b%.name);', 'export let { a: a% = (0, () => 1) } = {}; log(a%.length);', 'export default (function () { return $E; });', 'export default async () => { $AS };', 'export default function () { $F }', 'export default class extends Object { constructor() { super(); } m() { return $E; } }', 'export default { a: $E, m() { return $E; }, get g() { return 1; } };', 'export default [$E, () => $E];', 'export default $E || $E;', 'export default tag`${$E}`;', 'export function* g%() { yield $E; } log([...g%()]);', 'export async function* g%() { yield $E; }', 'export class K% extends (c(@), Object) { static x = $E; static { $S } }', 'export var a%; export let b%; a% = b% = $E;', 'log(typeof import.meta);', 'import j% from "m" with { type: "json" }; import * as n% from "n" with {}; import { e as f% } from "m" with { "a b": "c" }; import "q" with { type: "css" }; f%($E); log(typeof j%); n%.g(@);', 'export * from "m" with { type: "json" }; export { z as y% } from "m" with { type: "json" }; export * as ns% from "n" with { type: "json" }; $S', '"use strict"; $S', '"use client"\n$S', '("not a directive"); $S', '"a" + "b"; $S', "'use strict'\n;[1].map(() => $E);",
  '', ' ', '\n', '// comment', '/* comment */', ';', ';;', '"use strict"', '"use strict";', '{}', 'export {}', '#!/usr/bin/env node\n$S', '#!/usr/bin/env node', 'debugger', 'import "m"', 'var a%', 'let b%', 'function f%() {}', 'class K% {}', 'export default 1', 'this', 'c(@)', 'c(@)\n;(c(@))\n', 'var a% = c(@)\nvar b% = a%\nlog(b%)\nif (b%)\nlog(1)\nelse\nlog(2)\n', 'const f% = () => {\nreturn\nc(@)\n}\nf%()\n', 'let i% = 0\ni%\n++\ni%\nlog(i%)', 'l%:\nfor (;;) {\nbreak\nl%\n}', 'var a% = 1\n/c(@)/1', 'do c(@)\nwhile (c(@))\nlog(1)', 'throw c(@)', 'if (c(@)) c(@); else\nc(@)',
  // the emitted code's own names and builtins it relies on
  ...['global', 'path', 'hash', 'gcv', 'coverage', 'coverageData', 'actualCoverage', '_temp', 'Function', 'self', 'window', '__coverage__', 'index', 'name', 'INSTRUMENTED', 'cov', 'cov_', '$hash', 'isFinite', 'Symbol', 'Number', 'undefined_', 'arguments_', '_coverageSchema'].flatMap((n) => [`let ${n} = c(@); log(${n}, $E);`, `(function (${n}) { log(${n} && $E); })(c(@));`, `var ${n} = $E; function f%() { return ${n}; } log(f%());`, `class K% { ${n} = $E; static m(${n}) { return ${n} || $E; } } log(new K%().${n}, K%.m());`, `{ const ${n} = 1; log(() => ${n}, c(@)); } function g%() { return $E; } g%();`]),
];
const SCRIPT = [
  'f%(); function f%() { log(1); } function f%() { log(2); $F }', 'function f%(a, a) { return a; } log(f%(1, $E));', 'log(typeof this, this.me); $S', 'var let_ = 1, yield_ = 2; var yield = $E, await = 3, static = 4, let = 5, async = 6; log(yield, await, static, let, async);', 'function f%() { return this === globalThis; } log(f%());', 'eval("var q% = 1"); log(q%, $E);', 'function f%(a) { eval("a = 2"); return a; } log(f%($E));', 'let x% = 1; log(eval("x% + 1") || $E);', 'log(010, "\\101", delete v%); var v%;', 'x% = $E; log(x%, delete globalThis.x%);', 'with ({ a: $E }) { var a; log(a); $S }', 'with (o(@)) with ({ x: 1 }) log(x, $E);', 'with ({ get x() { return $E; } }) if (x) $S else $S', 'l%: { with ({}) { break l%; } }', 'if (c(@)) function f%() { return $E; }', 'if (c(@)) function f%() {} else function f%() { $F }', 'l%: function f%() { return $E; } log(f%());', '"use strict"; log((function () { return this; })()); $S', '"a"; "use strict"; $S log((function () { return this; })());', 'function f%() { "a"; "use strict"; $F return this; } log(f%());', 'function f%() { ("use strict"); $F return typeof this; } log(f%());', '$S "use strict"; log(typeof (function () { return this; })());', 'for (var x% = $E in { a: 1 }) log(x%);', 'var f% = function g() { g = 1; return typeof g; }; log(f%());', 'arguments_: for (;;) { break arguments_; }', 'function f%(a) { a = $E; return arguments[0]; } log(f%(1));', 'function f%(a) { arguments[0] = $E; return a; } log(f%(1));', 'function f%(a = 1) { arguments[0] = $E; return a; } log(f%(5));', 'function f%() { return f%.caller; } log(typeof f%);', 'c(@); <!-- html comment\n', 'var a% = 1; a%\n<!--b\n; $S', 'var undefined = 1, NaN = 2; log(undefined, $E);', 'try { undeclared_ = 1; } finally { delete globalThis.undeclared_; } $S', 'switch (1) { case 1: function f%() { return $E; } } log(f%());', '{ function f%() { return 1; } } log(f%()); { function f%() { return $E; } } log(f%());', 'log(typeof f%); { function f%() { $F } } log(typeof f%);', 'var of = [1]; for (var of of of) log(of);', 'async: for (;;) { break async; }', 'var async = (x) => x; async (c(@)); async\n(x => $E)', 'new Function("a", "return a")($E);', '', ' ', '#!/bin/x\n$S', '#!/bin/x', '"use strict"', '"use strict"\nvar a% = $E', '"use strict"; "b"; function f%() { "c"; $F } f%();', '// only a comment', 'var a%, b%', 'function f%() {}', 'debugger', '{}', ';',
];
const gen = (list, script) => function* (core) {
  for (const s of list) {
    const t = { k: 'S', s };
    yield { src: g.render(leafTree(t)), script };
    const hs = g.holes(t);
    for (let h = 0; h < hs.length; h++) for (const f of g.fillers(hs[h], { core, sloppy: script })) {
      const kids = new Array(hs.length).fill(null); kids[h] = leafTree(f);
      yield { src: g.render({ t, kids }), script };
    }
  }
};
function* rare(tier) {
  const core = tier !== 'thorough';
  yield* gen(M, false)(core);
  yield* gen(SCRIPT, true)(core);
  const plain = M.filter((s) => !/\bimport\b|\bexport\b|^\s*await\b/.test(s));
  for (const s of plain) yield { src: g.render(leafTree({ k: 'S', s })), script: true };
  // inside a function and inside a loop
  for (const s of plain.filter((x) => !/^#!/.test(x))) for (const w of ['(function () {\n$S\n})();', '(() => {\n$S\n})();', 'class W% { m() {\n$S\n} } new W%().m();', 'for (const x_ of it(@)) {\n$S\n}', 'switch (c(@)) { case 0:\n$S\n}', 'if (c(@)) {\n$S\n}', 'class W% { static {\n$S\n} }'].slice(0, core ? 4 : 7)) yield { src: g.render({ t: { k: 'S', s: w }, kids: [leafTree({ k: 'S', s })] }), script: false };
}
module.exports = { rare, M, SCRIPT };
