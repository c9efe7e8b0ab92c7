'use strict';
// TypeScript and JSX programs, compiled by swc before the instrumentation sees
// them (its default order) or after it (runPluginFirst).
// In a template ‹types› is source text without run-time meaning: the reference
// reads spaces there, so every position agrees. ‹text¦other› is text the
// reference reads as `other` padded to the same length. § is a literal at sign.
const g = require('./gen.js');
const { leafTree } = require('./corpus.js');

const T = [
  // declarations
  'var v%‹: number› = $E;', 'let v%‹: { a: number; b?(x: string): void } | null› = $E, w%‹!: string›;', 'const v%‹: Array<() => void>› = [$E]; log(v%.length);', 'const v% = (‹<any>›c(@)) || $E;', 'var v% = log((c(@)‹ as any›), $E);', 'const { q: v% = $E }‹: { q?: any }› = o(@);', 'let [v% = $E]‹: any[]› = it(@);',
  '‹declare const d%: number;› $S', '‹declare function d%(a: string): void;› $S', '‹declare class D% { m(): void }› $S', '‹declare namespace D% { const a: number }› $S', '‹declare module "m%" { export const a: number }› $S', '‹declare global { interface G% { a: 1 } }› $S', '‹declare enum D% { A, B = 2 }› $S',
  '‹interface I% { a: number; m?(): void; readonly [k: string]: any; new (): I%; (): void }› $S', '‹type T% = { [K in "a" | "b"]?: K extends "a" ? 1 : never } & `x${string}`;› $S', '‹type F% = (a: number, ...r: string[]) => asserts a is any;› $S', '‹interface I% extends Array<string> {}› if ($E) $S', '‹export interface I% { a: 1 }› $S', '‹export type T% = 1;› $S', '‹export type {};› $S', '‹import type X% from "x";› $S', '‹import type { Y% } from "x";› $S',
  // functions
  'function f%‹<T, U extends T = T>›(a‹: T›, b‹?: U›, ...r‹: any[]›)‹: void› { $F } f%($E);', 'function f%(‹this: any, ›a‹: number› = $E)‹: asserts a› { $F } f%(n(@));', '‹function f%(a: string): void; function f%(a: number): void;› function f%(a‹: any›) { $F } f%($E);', '‹export function f%(a: string): void;› export function f%(a‹: any›) { $F } f%($E);',
  'async function f%()‹: Promise<void>› { $AS return $A; } f%().then(log, log);', 'function* f%()‹: Generator<any>› { $GS yield $G; } for (const x of f%()) log(x);', 'log(((a‹: number›)‹: any› => $E)($E));', 'log(((a‹: Q›)‹: Q› => { $F return a; })($E));', 'log((async (a‹?: number›)‹: Promise<any>› => $A)(n(@)) && 1);', 'log((function (‹this: void›)‹: any› { return $E; })());', 'log(((a‹: any› = $E, { p = $E }‹: { p?: any }› = {}) => $E)(c(@)));', 'log((([q = $E]‹: any[]›) => q)(it(@)));',
  // expressions
  'log((c(@)‹ as any›) && $E);', 'log(n(@)‹!›?.[$E]);', 'log(o(@)‹!›.x, $E);', 'log((c(@)‹ satisfies any›) ? $E : $E);', 'log(log‹<number>›($E));', 'log(new Object‹<any>›($E) !== null);', 'log((o(@)‹ as any as { x: 1 }›).x || $E);', 'log([...(it(@)‹ as any[]›)].length, $E);', 'log(tag‹<string>›`a${$E}b`);', 'log(`${(c(@)‹ as any›)}${$E}`);', 'log({ a: ($E‹ as any›), [(c(@)‹ as any›)]: $E }.a);', '(o(@)‹ as any›).x = $E;', 'o(@)‹!›.x = $E;', 'log(((‹<any>›c(@)) ?? $E));', 'log(c(@) < ($E‹ as number›));', 'n(@)‹!›($E);', 'log(typeof (n(@)‹ as any›) === "function" && $E);',
  // statements
  'if ((c(@)‹ as boolean›)) $S else $S', 'for (const x of (it(@)‹ as any[]›)) $L', 'for (let i‹: number› = 0, j% = $E; i < 2; i++) { $L }', 'while ((c(@)‹ as any›)) { $L }', 'switch ((c(@)‹ as any›)) { case (c(@)‹ as any›): $S break; default: $S }', 'try { $S } catch (e‹: unknown›) { $S }', 'l%: for (const x of it(@)) { ‹type Q = 1;› $L if (c(@)) continue l%; }', '(function ()‹: any› { ‹type Q = 1; interface R {}› return (c(@)‹ as any›) && $E; })();', 'if ($E) { ‹type Q = 1;› } else $S', '{ ‹interface R {} type Q = 1;› $S }', 'throw (c(@)‹ as any›) || $E;', 'l%: { ‹type Q = 1;› $S }', 'do { ‹type Q = 1;› $L } while ((c(@)‹ as any›));', 'switch ($E) { case 0: ‹type Q = 1;› $S default: ‹interface R {}› $S }',
  // classes
  'class K%‹<T>›‹ implements Object› { x‹: number› = $E; static y‹?: any› = $E; ‹z: T;› ‹declare w: any;› ‹[k: string]: any;› m(a‹?: T›)‹: void› { $F } } new K%().m();', '‹abstract› class K% { ‹abstract m(): void;› ‹abstract get h(): any;› ‹abstract p: any;› constructor(a‹: any› = $E) { $F } get g()‹: any› { return $E; } } log(new K%().g);', 'class K% { ‹m(a: string): void; m(a: number): void;› m(a‹?: any›) { $F } ‹constructor(a: string); constructor();› constructor() { $F } } new K%().m();', 'class K% { #p‹: number› = $E; m()‹: any› { return this.#p; } static { $S } } log(new K%().m());', 'class K% extends (Object‹ as any›)‹<number>› { x = (c(@)‹ as any›); *g()‹: any› { $GS } } [...new K%().g()];', 'const v% = class‹<T>› { m‹<U>›(a‹?: U›) { return $E; } }; log(new v%().m());', 'class K% { m(‹this: any, ›a = $E) { return a; } set s(p‹: any›) { $F } } new K%().s = new K%().m();', 'class K% { [(c(@)‹ as any›)]‹: number› = $E; ["m" + c(@)]‹<T>›() { return $E; } } log(new K%().m0?.());', 'log({ m(a‹?: any›)‹: any› { return $E; }, get g()‹: any› { return $E; }, async n‹<T>›()‹: Promise<T>› { return $A; } }.m());',
  // modules
  'export const v%‹: number› = $E;', 'export const v% = ()‹: void› => { $F }; v%();', 'export let v%‹: any› = $E, w%‹: any›;', 'export default (‹<any>›$E);', '‹export default interface D% { a: 1 }› $S', 'export function f%‹<T>›(a‹?: T›) { $F } f%();', 'export ‹abstract› class K% { x‹: any› = $E; ‹abstract q(): void;› } ', '‹export declare const d%: number;› $S', '‹export as namespace N%;› $S', 'const v% = await (p(@)‹ as any›);', '‹export declare namespace Q% { let a: 1 }› $S', '‹export abstract class A% { abstract m(): void }¦export class A% { }› $S', '‹namespace Only% { export type A = 1; export interface B {} }› $S',
  // hints
  '\n/* istanbul ignore next */ var v%‹: number› = $E; $S', '‹\n/* istanbul ignore next */ interface I% {}› $S', '‹\n/* istanbul ignore if */ type Q% = 1;› if ($E) $S else $S', '\n/* istanbul ignore if */ if ((c(@)‹ as any›)) $S else $S', '\n/* istanbul ignore next */ function f%(a‹?: any›)‹: void› { $F } f%(); $S', '‹\n/* istanbul ignore next */ declare function g%(): void;› function f%() { $F } f%();', 'log(c(@) || \n/* istanbul ignore next */ (c(@)‹ as any›));', 'class K% { \n/* istanbul ignore next */ m()‹: any› { $F } ‹\n/* istanbul ignore next */ y: any;› x‹: any› = $E; } new K%().m();', 'log((\n/* istanbul ignore next */ (a‹: any›)‹: any› => $E)(1), $E);',
].map((s) => ({ k: 'S', s }));

// no counterpart without types: entries of the code the compiler makes up are
// its own; behaviour and shape are judged
const GEN = [
  'enum E% { A, B = 5, C = "x".length, D = A | B } log(E%.A, E%.D, E%[5]); $S', 'const enum E% { A = 1, B } log(E%.B); $S', 'enum E% { A = c(@) } log(E%.A, $E);', 'enum E% { A = "s" } enum E% { B = 3 } log(E%.A, E%.B); $S', 'export enum E% { A, B } $S', '(function () { enum E { A, B } return E.B || $E; })();',
  'namespace N% { export const a = $E; $S } log(N%.a);', 'namespace N% { export function f(p = $E) { $F } } N%.f();', 'namespace N%.M { export let a = $E; a = $E; } log(N%.M.a);', 'export namespace N% { export class K { x = $E; } $S } new N%.K();', 'namespace N% { const q = () => $E; export const a = q(), b = c(@); namespace I { export const z = $E; } log(I.z); } log(N%.b);', 'function F%() { $F } namespace F% { export const a = $E; } log(F%.a); F%();', 'namespace N% { enum E { A = 2 } log(E.A); if ($E) $S else $S }', 'namespace N% { export enum E { A = c(@) } } log(N%.E.A);', 'namespace N% { export const { q: a = $E } = o(@); for (const x of it(@)) { $L } }', 'namespace N% { $S } namespace N% { $S }', '{ $S } namespace N% { l: { $S if (c(@)) break l; } }', 'namespace N% { export async function f() { return $A; } f().then(log, log); }', 'module N% { $S }', 'namespace N% { "use strict"; log(`${$E}`); }', 'namespace N% { export import a = Object; log(a.length, $E); }',
  'import a% = Object.prototype; log(typeof a%, $E);', 'export import a% = Object.keys; $S',
  'class K% { constructor(public a = $E, private readonly b?: any) { $F } } log(new K%(n(@)).a);', 'class K% extends Object { x = $E; constructor(public a: any = c(@)) { super(); $F } } log(new K%().a);', 'class K% { public m() { $F } private static s() { return $E; } protected readonly x: any = $E; public static async a() { return $A; } public get g() { return $E; } override toString() { return "k"; } } new K%().m(); log(new K%().g);', 'class K% { private constructor(public x: any) { log(x, $E); } static mk() { return new K%(1); } } K%.mk();',
  'const dec% = (...a: any[]) => { log(a.length); }; §dec% class K% { m() { $F } } new K%().m();', 'const dec% = (v: any) => (t: any, k: any) => { log(k, v); }; class K% { §dec%($E) m() { $F } §dec%(c(@)) x = $E; §dec%(c(@) && $E) static s() {} } new K%().m();', 'const dec% = (...a: any[]) => { log(a.length); }; class K% { m(§dec% p = $E) { $F } constructor(§dec% a?: any) {} } new K%().m();', 'const dec% = (v: any) => (t: any) => { log(v); }; §dec%(c(@) || $E) export class K% { x = $E; }', 'const dec% = (...a: any[]) => { log(a.length); }; export default §dec% class K% { m() { return $E; } }',
  'log(c(@) as any || $E as any);', 'const v% = $E as any; log(v%!);', 'if (<any>$E) $S', 'let v% = c(@)!; v% = $E satisfies any;', 'const v% = (() => $E) as any; v%();', 'const v% = <T,>(a: T) => $E; v%(1);', 'const v% = function () { $F } as any; v%();', 'for (const x of it(@) as any) $L', 'log((n(@) as any)?.x!?.[$E]);', 'log(($E as any) ? $E as any : $E!);', '((q = $E as any) => q)(n(@));', '(o(@).x as any) = $E;', '(v_x as any) ||= $E; var v_x;', 'class K% { x = $E as any; static y = <any>$E; m = () => $E!; } new K%().m();', 'export default $E as any;', 'export const v% = $E as any;', 'export const v% = (() => { $F }) as any; v%();', 'switch ($E as any) { case $E as any: $S }', 'throw $E as any;', '(function () { return $E as any; })();', 'tag`a${$E as any}`!;', 'const v% = tag`a${$E}` as any;', 'delete (o(@) as any).x, $E;', 'export = $E;', 'import type X from "x"; import { type Y } from "y"; export { type Z } from "z"; $S', 'accessor: { $S }', 'class K% { declare x: any; y = $E; readonly z: any; private w?: any; } log("x" in new K%());',
  '\n/* istanbul ignore next */ enum E% { A = c(@) } $S', '\n/* istanbul ignore next */ namespace N% { $S } $S', 'namespace N% { \n/* istanbul ignore next */ if ($E) $S \n/* istanbul ignore if */ if ($E) $S else $S }', 'class K% { \n/* istanbul ignore next */ public m() { $F } \n/* istanbul ignore next */ private x = $E; } new K%().m();', 'const dec% = (...a: any[]) => { log(a.length); }; \n/* istanbul ignore next */ §dec% class K% { m() { $F } } $S', 'class K% { constructor(\n/* istanbul ignore next */ public a = $E) { $F } } log(new K%(n(@)).a);',
].map((s) => ({ k: 'S', s }));

// the counterparts are as long as the elements; J calls the functions it is given
const JSX = [
  'log(‹<a/>¦J(0)›);', 'log(‹<a b={¦J(0,(›$E‹}/>¦ ))›);', 'log(‹<aa>{¦J(0,(›$E‹}</aa>¦    ))›);', 'log(‹<a b={¦J(0,(›$E‹} c={¦),(›$E‹}>t {¦),(›$E‹} &amp; {¦),(›$E‹}</a>¦    ))›);', 'log(‹<a {...¦J(0,(›$E‹}/>¦ ))›);', 'log(‹<  >{¦J(0,(›$E‹}</>¦   ))›);', 'log(‹<this.me.x d="e" f={¦J(0,(›$E‹} {...¦),(›$E‹}/>¦ ))›);', 'log(‹<a-b c:d={¦J(0,(›$E‹}/>¦ ))›);',
  'log($E ? ‹<a/>¦J(0)› : ‹<bb>{¦J(0,(›$E‹}</bb>¦    ))›);', 'log($E && ‹<a b={¦J(0,(›$E‹}/>¦ ))›);', 'log($E || (‹<a/>¦J(0)›));', 'log(‹<aa>{¦J(0,(›$E ? ‹<bb>{¦J(0,(›$E‹}</bb>¦    ))› : ‹<c/>¦J(0)›‹}</aa>¦    ))›);', 'log(‹<aa>{¦J(0,(›$E && ‹<b/>¦J(0)›‹} {¦),(›it(@).map((x) => ‹<c k={¦J(0,(›x‹}>{¦),(›$E‹}</c>¦    ))›)‹}</aa>¦    ))›);',
  'log(‹<a b={¦J(0,(›() => $E‹} c={¦),(›() => { $F }‹}/>¦ ))›);', 'log(‹<a b={¦J(0,(›function () { $F return $E; }‹}/>¦ ))›);', 'log(‹<aa>{¦J(0,(›(p = $E) => ‹<bb>{¦J(0,(›$E‹}</bb>¦    ))›‹}</aa>¦    ))›);', 'log(‹<aa>{¦J(0,(›async () => { $AS }‹}</aa>¦    ))›);', 'log(‹<a b={¦J(0,(›class { static m = $E; }‹}/>¦ ))›);',
  'function f% () { $F return ‹<aa>{¦J(0,(›$E‹}</aa>¦    ))›; } log(f%());', 'function f% () { $F return (‹<aa>{¦J(0,(›$E‹}</aa>¦    ))›); } log(f%());', 'const v% = () => ‹<aa>{¦J(0,(›$E‹}</aa>¦    ))›; log(v%());', 'const v% = (p = ‹<a/>¦J(0)›) => { $F return p; }; log(v%(n(@)));', 'var v% = ‹<a b={¦J(0,(›$E‹}/>¦ ))›; log(v%);', 'var v%; v% ||= ‹<a b={¦J(0,(›$E‹}/>¦ ))›;', 'if ($E) ‹<a b={¦J(0,(›$E‹}/>¦ ))›; else $S', '‹<aa>{¦J(0,(›$E‹}</aa>¦    ))›;', 'throw ‹<a b={¦J(0,(›$E‹}/>¦ ))›;', 'export default ‹<a b={¦J(0,(›$E‹}/>¦ ))›;', 'export const v% = ‹<a b={¦J(0,(›$E‹}/>¦ ))›;', 'export default () => ‹<a b={¦J(0,(›$E‹}/>¦ ))›;', 'class K% { x = ‹<a b={¦J(0,(›$E‹}/>¦ ))›; r() { $F return ‹<aa>{¦J(0,(›$E‹}</aa>¦    ))›; } } log(new K%().r());', 'switch (‹<a/>¦J(0)›) { case 1: $S default: $S }', 'for (const x of [‹<a/>¦J(0)›, ‹<b c={¦J(0,(›$E‹}/>¦ ))›]) { $L }',
  'log(‹<aa>{¦J(0,(›\n/* istanbul ignore next */ $E ? $E : $E‹}</aa>¦    ))›);', 'log(‹<a b={¦J(0,(›\n/* istanbul ignore next */ () => $E‹}/>¦ ))›);', '\n/* istanbul ignore next */ log(‹<aa>{¦J(0,(›$E‹}</aa>¦    ))›); $S', 'log($E || \n/* istanbul ignore next */ ‹<aa>{¦J(0,(›$E‹}</aa>¦    ))›);', 'log(‹<aa>{\n/* istanbul ignore next */}{¦J(0,(›$E || $E‹}</aa>¦    ))›);', 'log(‹<aa>{}{/* c */}t{¦J(0,(›$E‹}</aa>¦    ))›);',
  'log(‹<a b=<c/> d={¦J(0,J(0),(›$E‹}/>¦ ))›);', 'log(‹<aaa><bb>{¦J(0,J(0,(›$E‹}</bb>{¦)),(›$E‹}</aaa>¦    ))›);', 'log(‹<aa>\n  t\n  {¦J(0,(›$E‹}\n  u {¦),(›$E‹}\n</aa>¦    ))›);', 'log(‹<a b={¦J(0,(›tag`a${$E}b`‹}/>¦ ))›);', 'log(‹<a b={¦J(0,(›`a${$E}b`‹}>{...¦),...(›it(@)‹}</a>¦    ))›);', 'log(‹<a b={¦J(0,(›(v% = $E)‹}/>¦ ))›); var v%;', 'log(‹<a b={¦J(0,(›({ m() { return $E; } }).m()‹}/>¦ ))›);',
].map((s) => ({ k: 'S', s }));
const JSXGEN = ['function A% (p) { $F return p; } log(<A% x={$E} {...o(@)} key="k">t{$E}<><b/></></A%>);', 'const A% = { B: (p) => $E }; log(<A%.B c={$E}/>);', 'log(<a b="&lt;" c>x{" "}y &nbsp; {$E}  z\n  w</a>);', 'log(<a key={$E} {...o(@)}/>);', 'log(<a {...o(@)} key={$E}/>);', 'log(<this.me.x a={$E}/>);'].map((s) => ({ k: 'S', s }));

const MARK = /‹([^¦›]*)(?:¦([^›]*))?›/gu;
const blank = (s) => s.replace(/[^\n\r\u2028\u2029]/g, ' ');
// the counterpart takes the place of the last characters, line breaks stay
const pad = (s, a) => {
  const t = s.trim(), end = /^\)+$/.test(t);
  const room = [...a].map((ch, i) => (ch === '\n' ? -1 : i)).filter((i) => i >= 0);
  if (t.length > room.length || a.length !== [...a].length) throw new Error(`counterpart of ${a} is too long: ${s}`);
  const out = [...blank(a)];
  const at = end ? room.slice(room.length - t.length) : room;
  [...t].forEach((ch, i) => { out[at[i]] = ch; });
  return out.join('');
};
const textOf = (s) => s.replace(MARK, (m, a) => a).replace(/§/g, '@');
const refOf = (s) => s.replace(MARK, (m, a, b) => (b === undefined ? blank(a) : pad(b, a))).replace(/§/g, '@');

const BLOCKS = ['if ($E) { $S } else { $S }', '(function () { $F })();', '(async () => { $AS })();', 'while (c(@)) { $L }', 'l%: { $S if (c(@)) break l%; $S }', 'try { $S } catch { $S } finally { $S }', 'switch ($E) { case $E: $S break; case 1: $S default: $S }', 'log(typeof class { static { $S } });', 'class K% { m() { $F } } new K%().m();', '{ $S $S }', '(() => { $F return $E; })();'].map((s) => ({ k: 'S', s }));

function* trees(templates, tier, nested) {
  const core = tier !== 'thorough';
  for (const t of templates) {
    yield leafTree(t);
    const hs = g.holes(t);
    for (let h = 0; h < hs.length; h++) for (const f of g.fillers(hs[h], { core })) { const kids = new Array(hs.length).fill(null); kids[h] = leafTree(f); yield { t, kids }; }
    if (!core) for (let h = 0; h < hs.length; h++) for (let j = h + 1; j < hs.length; j++) for (const f of g.fillers(hs[h], { core: true })) for (const e of g.fillers(hs[j], { core: true })) { const kids = new Array(hs.length).fill(null); kids[h] = leafTree(f); kids[j] = leafTree(e); yield { t, kids }; }
  }
  if (!nested) return;
  for (const b of BLOCKS) {
    const hs = g.holes(b);
    for (let h = 0; h < hs.length; h++) if (hs[h].k === 'S') for (const t of templates) if (!/export|import|declare global/.test(t.s) && !(/(async|static)/.test(b.s) && /await|yield/.test(t.s))) { const kids = new Array(hs.length).fill(null); kids[h] = leafTree(t); yield { t: b, kids }; }
  }
}
function* emit(templates, tier, { nested, reqs, noRef, loud }) {
  for (const tr of trees(templates, tier, nested)) {
    const x = g.render(tr);
    // a string behind a declaration that is erased becomes a directive when it is erased
    const first = (y) => (y.match(/(?:^|\{)\s*["']/g) || []).length;
    if (!noRef && first(textOf(x)) !== first(refOf(x))) continue;
    for (const req of reqs) yield { src: textOf(x), refSrc: noRef ? undefined : refOf(x), noRef, loud, script: false, req, compiled: true };
  }
}
const TS = [{ ts: true, strip: 'before' }, { ts: true, strip: 'after' }];
const X = [{ jsx: true }, { tsx: true, strip: 'before', jsx: true }];
function* types(tier) { yield* emit(T, tier, { nested: true, reqs: TS }); }
function* generated(tier) { yield* emit(GEN, tier, { nested: true, reqs: TS, noRef: true }); yield* emit(JSXGEN, tier, { nested: true, reqs: X, noRef: true, loud: true }); }
function* elements(tier) { yield* emit(JSX, tier, { nested: true, reqs: X }); }
module.exports = { types, generated, elements, T, GEN, JSX, textOf, refOf };
