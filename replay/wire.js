// Runs generated TypeScript against a reference runtime.
//   node wire.js PROP SEED DIR < lines   (lines as printed by `pktr emit`)
//   node wire.js PROP replay FILE        (FILE as saved by a failing run)
'use strict';
const fs = require('fs');
const path = require('path');
const ts = require('/opt/veriftools/node/node_modules/typescript');

const [prop, seedArg, dirArg] = process.argv.slice(2);

// ---- random numbers
let state = BigInt(1);
function seed(n) { state = (BigInt(n) * 0x2545F4914F6CDD1Dn + 99n) & 0xffffffffffffffffn; }
function next() {
  state = (state + 0x9E3779B97F4A7C15n) & 0xffffffffffffffffn;
  let z = state;
  z = ((z ^ (z >> 30n)) * 0xBF58476D1CE4E5B9n) & 0xffffffffffffffffn;
  z = ((z ^ (z >> 27n)) * 0x94D049BB133111EBn) & 0xffffffffffffffffn;
  return Number((z ^ (z >> 31n)) & 0xffffffffn);
}
const below = (n) => next() % n;
const pick = (a) => a[below(a.length)];

// ---- the runtime the generated code imports
const SIZE = { uint8: 1, uint16: 2, uint32: 4, int8: 1, int16: 2, int32: 4, float: 4 };
const GET = { uint8: 'getUint8', uint16: 'getUint16', uint32: 'getUint32', int8: 'getInt8', int16: 'getInt16', int32: 'getInt32', float: 'getFloat32' };
const SET = { uint8: 'setUint8', uint16: 'setUint16', uint32: 'setUint32', int8: 'setInt8', int16: 'setInt16', int32: 'setInt32', float: 'setFloat32' };
class Reader {
  constructor(data) { this.view = new DataView(data); this.pos = 0; this.failed = false; this.calls = 0; }
  tick() { if (++this.calls > 200000) throw new Error('the reader does not stop'); }
  read_string(n) {
    this.tick();
    if (this.failed || this.pos + n > this.view.byteLength) { this.failed = true; return ''; }
    let s = '';
    for (let i = 0; i < n; ++i) s += String.fromCharCode(this.view.getUint8(this.pos + i));
    this.pos += n;
    return s;
  }
}
class Writer {
  constructor(buffer) { this.buffer = buffer; this.bytes = []; this.trace = []; Writer.last = this; }
  write_string(s) { this.trace.push(['string', s]); for (let i = 0; i < s.length; ++i) this.bytes.push(s.charCodeAt(i)); }
  finish() { this.trace.push(['finish']); return new Uint8Array(this.bytes).buffer; }
}
for (const t of Object.keys(SIZE)) {
  Reader.prototype['read_' + t] = function () {
    this.tick();
    if (this.failed || this.pos + SIZE[t] > this.view.byteLength) { this.failed = true; return 0; }
    const v = this.view[GET[t]](this.pos, true);
    this.pos += SIZE[t];
    return v;
  };
  Writer.prototype['write_' + t] = function (v) {
    this.trace.push([t, v]);
    if (typeof v !== 'number') throw new Error(`write_${t} of ${typeof v}`);
    const b = new DataView(new ArrayBuffer(8));
    b[SET[t]](0, v, true);
    for (let i = 0; i < SIZE[t]; ++i) this.bytes.push(b.getUint8(i));
  };
}

// ---- what a schema means
function parts(schema) {
  const d = new Map(); let ex = null;
  for (const i of schema) { if (i.export !== undefined) ex = i.export; else if (i.enum !== undefined) d.set(i.enum, i); else d.set(i.struct, i); }
  return { d, ex };
}
const repr = (n) => (n <= 8 ? 'uint8' : n <= 16 ? 'uint16' : 'uint32');
const LIMIT = { uint8: 255, uint16: 65535, uint32: 4294967295 };
function reachable(d, ex) {
  const seen = new Set(); const todo = [ex];
  while (todo.length) { const t = d.get(todo.pop()); if (t && t.fields) for (const f of t.fields) if (d.has(f.type) && !seen.has(f.type)) { seen.add(f.type); todo.push(f.type); } }
  return seen;
}
function scalar(t) {
  switch (t) {
    case 'uint8': return pick([0, 1, 2, 7, 127, 128, 255]);
    case 'uint16': return pick([0, 1, 255, 256, 32768, 65535]);
    case 'uint32': return pick([0, 1, 65536, 2147483648, 4294967295, 12345]);
    case 'int8': return pick([0, 1, -1, 127, -128]);
    case 'int16': return pick([0, -1, 32767, -32768, 300]);
    case 'int32': return pick([0, -1, 2147483647, -2147483648, 70000]);
    case 'float': return pick([0, 1.5, -2.25, Math.fround(0.1), Math.fround(1e30)]);
    default: return below(60) === 0 ? 'k'.repeat(pick([31, 127, 128, 255, 256, 300])) : pick(['', 'a', 'hello', 'x y', 'ABC', '~', 'longer text than the rest']);
  }
}
function value(d, t) {
  const x = d.get(t);
  if (!x) return scalar(t);
  if (x.enum !== undefined) return 2 ** below(x.variants.length);
  const o = {};
  for (const f of x.fields) o[f.name] = member(d, f);
  return o;
}
function member(d, f) {
  if (f.optional && below(2)) return pick([undefined, null]);
  if (f.array) { const a = []; for (let n = !d.has(f.type) && below(40) === 0 ? pick([17, 255, 256, 257, 300]) : pick([0, 1, 1, 2, 3]); n > 0; --n) a.push(value(d, f.type)); return a; }
  return value(d, f.type);
}
// the calls the writer must make
function calls(d, t, v, out) {
  const x = d.get(t);
  if (!x) { if (t === 'string') { out.push(['uint32', v.length]); out.push(['string', v]); } else out.push([t, v]); return; }
  if (x.enum !== undefined) { out.push([repr(x.variants.length), v]); return; }
  for (const f of x.fields) {
    let w = v[f.name];
    if (f.optional) { if (w === undefined || w === null) { out.push(['uint8', 0]); continue; } out.push(['uint8', 1]); }
    if (f.array) { out.push(['uint32', w.length]); for (const i of w) calls(d, f.type, i, out); } else calls(d, f.type, w, out);
  }
}
function bytesOf(trace) { const w = new Writer(); for (const [t, v] of trace) w['write_' + t](v); return new Uint8Array(w.bytes); }
// where each enum value lies in the bytes
function enumSpots(d, ex, v) {
  const out = []; let pos = 0;
  (function go(t, v) {
    const x = d.get(t);
    if (!x) { pos += t === 'string' ? 4 + v.length : SIZE[t]; return; }
    if (x.enum !== undefined) { const r = repr(x.variants.length); out.push({ pos, r, n: x.variants.length }); pos += SIZE[r]; return; }
    for (const f of x.fields) {
      const w = v[f.name];
      if (f.optional) { pos += 1; if (w === undefined || w === null) continue; }
      if (f.array) { pos += 4; for (const i of w) go(f.type, i); } else go(f.type, w);
    }
  })(ex, v);
  return out;
}
// values an enum field must not have, mostly
function outside(s) { const m = 2 ** (s.n - 1), out = [0, m + 1, LIMIT[s.r], LIMIT[s.r] - 1, 2 * m, 2 * m + 1, 3 * m, 4 * m, below(4294967295) % (LIMIT[s.r] + 1)]; for (let i = s.n; i < 32; i += 1 + below(4)) out.push(2 ** i); return out; }
function norm(d, t, v) { // as it must come back
  const x = d.get(t);
  if (!x || x.enum !== undefined) return v;
  const o = {};
  for (const f of x.fields) { const w = v[f.name]; o[f.name] = f.optional && (w === undefined || w === null) ? undefined : f.array ? w.map((i) => norm(d, f.type, i)) : norm(d, f.type, w); }
  return o;
}
function same(d, t, got, want, where) {
  const x = d.get(t);
  if (!x || x.enum !== undefined) return Object.is(got, want) || (got === 0 && want === 0) ? null : `${where} is ${JSON.stringify(got)}, written ${JSON.stringify(want)}`;
  if (typeof got !== 'object' && typeof got !== 'function' || got === null) return `${where} is ${got}`;
  const keys = Object.keys(got).sort().join(), need = x.fields.map((f) => f.name).sort().join();
  if (keys !== need) return `${where} has members ${keys}, declared ${need}`;
  for (const f of x.fields) {
    const g = got[f.name], w = want[f.name], at = `${where}.${f.name}`;
    if (w === undefined) { if (g !== undefined) return `${at} is ${JSON.stringify(g)}, written absent`; continue; }
    if (f.array) {
      if (!Array.isArray(g) || g.length !== w.length) return `${at} is ${JSON.stringify(g)}, written ${JSON.stringify(w)}`;
      for (let i = 0; i < w.length; ++i) { const e = same(d, f.type, g[i], w[i], `${at}[${i}]`); if (e) return e; }
    } else { const e = same(d, f.type, g, w, at); if (e) return e; }
  }
  return null;
}

// ---- loading generated code
// The namespace holds only types and const enums, which leave nothing behind at run time under tsc's
// defaults; it is cut out because the single-file transpiler used here would keep its enums.
function load(code, ex) {
  const sf = ts.createSourceFile('m.ts', code, ts.ScriptTarget.ES2020, true);
  for (const st of [...sf.statements].reverse()) if (ts.isModuleDeclaration(st)) code = code.slice(0, st.getStart(sf)) + code.slice(st.getEnd());
  const js = ts.transpileModule(code, { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2020 }, reportDiagnostics: true });
  if (js.diagnostics && js.diagnostics.length) throw new Error('not TypeScript: ' + ts.flattenDiagnosticMessageText(js.diagnostics[0].messageText, ' '));
  const m = { exports: {} };
  new Function('require', 'exports', 'module', js.outputText)((n) => { if (n !== 'packet') throw new Error('imports ' + n); return { Reader, Writer }; }, m.exports, m);
  return m.exports[ex];
}
function make(cls, x, v) { return new cls(...x.fields.map((f) => v[f.name])); }

// ---- declarations, taken from the syntax tree
function typeText(d, f, ex) { return f.type === 'string' ? 'string' : SIZE[f.type] ? 'number' : f.type; }
function declarations(code) {
  const sf = ts.createSourceFile('m.ts', code, ts.ScriptTarget.ES2020, true);
  const out = { decls: [], cls: null, ns: null };
  const txt = (n) => (n ? n.getText(sf).replace(/\s+/g, ' ') : '');
  const num = (n) => { try { return Number(new Function('return ' + txt(n))()); } catch (e) { return NaN; } };
  for (const st of sf.statements) {
    if (ts.isModuleDeclaration(st)) {
      out.ns = txt(st.name);
      for (const x of (st.body && st.body.statements) || []) {
        if (ts.isInterfaceDeclaration(x)) out.decls.push({ kind: 'struct', name: txt(x.name), fields: x.members.map((m) => ({ name: txt(m.name), opt: !!m.questionToken, type: txt(m.type) })) });
        else if (ts.isEnumDeclaration(x)) out.decls.push({ kind: 'enum', name: txt(x.name), fields: x.members.map((m) => ({ name: txt(m.name), value: m.initializer ? num(m.initializer) : NaN })) });
        else out.decls.push({ kind: 'other', name: txt(x).slice(0, 60), fields: [] });
      }
    } else if (ts.isClassDeclaration(st)) {
      const k = st.members.find(ts.isConstructorDeclaration);
      out.cls = { name: txt(st.name), params: k ? k.parameters.map((p) => ({ name: txt(p.name), type: txt(p.type) })) : [] };
    }
  }
  return out;
}
function judgeDecls(c, which) {
  const { d, ex } = parts(c.schema);
  const got = declarations(c.code);
  const need = reachable(d, ex);
  const names = got.decls.map((x) => x.name);
  if (which === 'C06') {
    if (got.ns !== ex) return `the namespace is ${got.ns}, the export is ${ex}`;
    if (!got.cls || got.cls.name !== ex) return `the class is ${got.cls && got.cls.name}, the export is ${ex}`;
    const a = [...names].sort().join(), b = [...need].sort().join();
    if (a !== b) return `declares [${a}], the export needs [${b}]`;
  }
  for (const x of got.decls) {
    const w = d.get(x.name);
    if (!w) { if (which === 'C06') return `declares ${x.name}`; else continue; }
    if (which === 'C05') {
      if (w.enum === undefined || x.kind !== 'enum') continue;
      const a = x.fields.map((f) => `${f.name}=${f.value}`).join(), b = w.variants.map((n, i) => `${n}=${2 ** i}`).join();
      if (a !== b) return `enum ${x.name} is declared as ${a}, expected ${b}`;
      continue;
    }
    if ((w.enum !== undefined) !== (x.kind === 'enum')) return `${x.name} is declared as ${x.kind}`;
    if (x.kind === 'enum') { if (which === 'C06') { const a = x.fields.map((f) => f.name).join(), b = w.variants.join(); if (a !== b) return `enum ${x.name} has variants ${a}, expected ${b}`; } continue; }
    const a = x.fields.map((f) => `${f.name}${f.opt ? '?' : ''}: ${f.type}`).join('; '), b = w.fields.map((f) => `${f.name}${f.optional ? '?' : ''}: ${typeText(d, f)}${f.array ? '[]' : ''}`).join('; ');
    if (a !== b) return `struct ${x.name} is declared with ${a}; expected ${b}`;
  }
  if (got.cls) {
    const pre = (f) => (d.has(f.type) ? ex + '.' : '') + typeText(d, f) + (f.array ? '[]' : '') + (f.optional ? ' | undefined' : '');
    const a = got.cls.params.map((p) => `${p.name}: ${p.type}`).join('; '), b = d.get(ex).fields.map((f) => `${f.name}: ${pre(f)}`).join('; ');
    if (which !== 'C05' && a !== b) return `the constructor takes ${a}; expected ${b}`;
  }
  return null;
}

// ---- one schema, one property
function judge(c, n) {
  if (c.kind !== 'code') return c.kind === 'panic' ? `the compiler panics: ${c.code}` : null;
  const { d, ex } = parts(c.schema);
  if (prop === 'C04') return judgeDecls(c, 'C04');
  if (prop === 'C06') return judgeDecls(c, 'C06');
  if (prop === 'C10') return null; // done for all files at once
  let cls;
  try { cls = load(c.code, ex); } catch (e) { return `the code does not load: ${e.message}`; }
  if (prop === 'C05') { const e = judgeDecls(c, 'C05'); if (e) return e; }
  for (let k = 0; k < n; ++k) {
    const v = c.value && k === 0 ? c.value : value(d, ex);
    c.tried = v;
    const want = []; calls(d, ex, v, want);
    const bytes = bytesOf(want);
    try {
      if (prop === 'C07') {
        const buf = below(2) ? new ArrayBuffer(8) : undefined;
        const out = new Uint8Array(make(cls, d.get(ex), v).write(buf));
        const got = Writer.last.trace;
        if (Writer.last.buffer !== buf) return 'the given buffer is not passed to the writer';
        if (JSON.stringify(got) !== JSON.stringify([...want, ['finish']])) return `writes ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`;
        if (Buffer.compare(Buffer.from(out), Buffer.from(bytes))) return `returns ${Buffer.from(out).toString('hex')}, expected ${Buffer.from(bytes).toString('hex')}`;
      } else if (prop === 'C08') {
        const data = make(cls, d.get(ex), v).write();
        const back = cls.read(data);
        if (back === null) return 'read returns null for what write produced';
        const e = same(d, ex, back, norm(d, ex, v), ex);
        if (e) return e;
      } else if (prop === 'C09') {
        const cuts = new Set(); for (let i = 0; i < Math.min(bytes.length, 40); ++i) cuts.add(i);
        for (let i = 1; i < 9 && bytes.length > i; ++i) { cuts.add(bytes.length - i); cuts.add(below(bytes.length)); }
        for (const cut of cuts) {
          const got = cls.read(bytes.slice(0, cut).buffer);
          if (got !== null) return `read accepts the first ${cut} of ${bytes.length} bytes ${Buffer.from(bytes).toString('hex')}`;
        }
        for (const s of enumSpots(d, ex, v).slice(0, 12)) {
          for (const bad of outside(s)) {
            if (bad > LIMIT[s.r] || (bad >= 1 && bad <= 2 ** (s.n - 1))) continue;
            const b = bytes.slice(); new DataView(b.buffer)[SET[s.r]](s.pos, bad, true);
            if (cls.read(b.buffer) !== null) return `read accepts enum value ${bad} of ${s.n} variants at byte ${s.pos} of ${Buffer.from(b).toString('hex')}`;
          }
        }
      } else if (prop === 'C05') {
        const spots = enumSpots(d, ex, v).slice(0, 12);
        for (const s of spots) {
          for (let i = 0; i < s.n; ++i) {
            const b = bytes.slice(); new DataView(b.buffer)[SET[s.r]](s.pos, 2 ** i, true);
            if (cls.read(b.buffer) === null) return `read rejects variant ${i} of ${s.n} at byte ${s.pos} of ${Buffer.from(b).toString('hex')}`;
          }
          for (const bad of outside(s)) {
            if (bad > LIMIT[s.r] || (bad >= 1 && bad <= 2 ** (s.n - 1))) continue;
            const b = bytes.slice(); new DataView(b.buffer)[SET[s.r]](s.pos, bad, true);
            if (cls.read(b.buffer) !== null) return `read accepts enum value ${bad} of ${s.n} variants at byte ${s.pos}`;
          }
        }
        if (spots.length) {
          make(cls, d.get(ex), v).write();
          if (JSON.stringify(Writer.last.trace) !== JSON.stringify([...want, ['finish']])) return `writes ${JSON.stringify(Writer.last.trace)}, expected ${JSON.stringify(want)}`;
        }
      }
    } catch (e) { return `${prop === 'C07' ? 'write' : 'read or write'} throws ${e.message}`; }
  }
  return null;
}

// ---- C10: the type checker of the TypeScript compiler, on all modules at once
const PACKET = `export class Reader { constructor(data: ArrayBuffer); failed: boolean; read_string(n: number): string; ${Object.keys(SIZE).map((t) => `read_${t}(): number;`).join(' ')} }
export class Writer { constructor(buffer?: ArrayBuffer); finish(): ArrayBuffer; write_string(s: string): void; ${Object.keys(SIZE).map((t) => `write_${t}(n: number): void;`).join(' ')} }`;
const LIB = `interface Array<T> { length: number; [n: number]: T; } interface ArrayConstructor { new (n?: number): any[]; } declare var Array: ArrayConstructor;
interface ObjectConstructor { create(o: any): any; } declare var Object: ObjectConstructor; interface ArrayBuffer { byteLength: number; } interface Boolean {} interface Function {} interface CallableFunction {} interface NewableFunction {}
interface IArguments {} interface Number {} interface Object {} interface RegExp {} interface String { length: number; }`;
function typecheck(cases) {
  const files = new Map([['/lib.d.ts', LIB], ['/packet.d.ts', PACKET]]);
  cases.forEach((c, i) => { if (c.kind === 'code') files.set(`/m${i}.ts`, c.code); });
  const opts = { noLib: true, noEmit: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, moduleResolution: ts.ModuleResolutionKind.Node10 ?? ts.ModuleResolutionKind.NodeJs, strict: true, baseUrl: '/', paths: { packet: ['./packet.d.ts'] }, types: [], ignoreDeprecations: '5.0' };
  const host = {
    fileExists: (f) => files.has(f), readFile: (f) => files.get(f), getSourceFile: (f, v) => (files.has(f) ? ts.createSourceFile(f, files.get(f), v) : undefined),
    getDefaultLibFileName: () => '/lib.d.ts', writeFile: () => {}, getCurrentDirectory: () => '/', getCanonicalFileName: (f) => f, useCaseSensitiveFileNames: () => true, getNewLine: () => '\n', getDirectories: () => [], directoryExists: () => true,
  };
  const prog = ts.createProgram([...files.keys()], opts, host);
  const bad = new Map();
  for (const f of prog.getSourceFiles()) {
    for (const e of [...prog.getSyntacticDiagnostics(f), ...prog.getSemanticDiagnostics(f)]) {
      const at = e.file && e.start !== undefined ? e.file.getLineAndCharacterOfPosition(e.start).line : -1;
      const m = /^\/m(\d+)\.ts$/.exec(e.file ? e.file.fileName : '');
      const text = `TS${e.code}: ${ts.flattenDiagnosticMessageText(e.messageText, ' ')}` + (m && at >= 0 ? ` in: ${files.get(e.file.fileName).split('\n')[at].trim()}` : '');
      if (!m) throw new Error('harness: ' + text);
      if (!bad.has(+m[1])) bad.set(+m[1], text);
    }
  }
  return bad;
}

function main() {
  let cases, values = +(process.env.PKT_VALUES || 6);
  if (seedArg === 'replay') { cases = [JSON.parse(fs.readFileSync(dirArg, 'utf8'))]; seed(1); } else {
    seed(seedArg);
    cases = fs.readFileSync(0, 'utf8').split('\n').filter((x) => x).map((x) => JSON.parse(x));
  }
  let evaluations = 0; const distinct = new Set(); let violation = null; const samples = [];
  const found = (c, why) => {
    if (violation && violation.size <= c.text.length) return;
    violation = { why, size: c.text.length, c };
  };
  const bad = prop === 'C10' ? typecheck(cases) : null;
  cases.forEach((c, i) => {
    const why = bad ? bad.get(i) : judge(c, values);
    evaluations += bad || prop === 'C04' || prop === 'C06' ? 1 : values;
    if (c.kind === 'code') distinct.add(c.text);
    if (samples.length < 3 && c.kind === 'code' && i % 7 === 3) samples.push({ schema: c.text, value: c.tried });
    if (why) found(c, why);
  });
  if (violation) {
    const { c, why } = violation;
    let file = dirArg;
    if (seedArg !== 'replay') { file = path.join(dirArg, `${prop}-${seedArg}.json`); fs.writeFileSync(file, JSON.stringify({ schema: c.schema, text: c.text, kind: c.kind, code: c.code, value: c.tried, why }, null, 1)); }
    violation = { why, replay: file };
  }
  console.log(JSON.stringify({ evaluations, distinct: distinct.size, accepted: cases.filter((c) => c.kind === 'code').length, samples, violation }));
  process.exit(violation ? 1 : 0);
}
main();
