// Executes calls on the JavaScript binding of the working tree; one call per line, one answer per line (see lib/binding.py).
// The binding's text runs over a stand-in for the Emscripten runtime: a 32-bit heap whose blocks are tracked, and the C
// functions answered by the real library through the driver behind the file descriptors 3 (commands) and 4 (answers).
'use strict';
const fs = require('fs');
const SIZE = 1 << 26;
const buffer = new ArrayBuffer(SIZE);
const HEAPU8 = new Uint8Array(buffer), HEAP8 = new Int8Array(buffer), HEAP16 = new Int16Array(buffer), HEAPU16 = new Uint16Array(buffer), HEAP32 = new Int32Array(buffer),
    HEAPU32 = new Uint32Array(buffer), HEAPF32 = new Float32Array(buffer), HEAPF64 = new Float64Array(buffer);

class Bad extends Error {}
const bad = (m) => { broken = broken || m; throw new Bad(m); };
let broken = null;

// ---- heap
const blocks = new Map();      // start -> {size, kind, owner}
const granule = new Map();     // address / 16 -> block
let next = 1024;
function alloc(size, kind, owner) {
	const n = Math.max(1, size);
	if (next + n + 64 > SIZE) {
		next = 1024;
		for (const [p, b] of blocks) next = Math.max(next, (p + b.size + 63) & ~15);
		if (next + n + 64 > SIZE) bad('out of memory: ' + blocks.size + ' blocks');
	}
	const p = next;
	next = (p + n + 47) & ~15;
	HEAPU8.fill(0xAA, p, p + n);
	const b = { at: p, size: size, kind: kind, owner: owner || null, parts: [] };
	if (owner) owner.parts.push(b);
	blocks.set(p, b);
	for (let g = p >> 4; g <= (p + n - 1) >> 4; g++) granule.set(g, b);
	return p;
}
function release(b) {
	for (const p of b.parts) release(p);
	HEAPU8.fill(0xDD, b.at, b.at + b.size);
	blocks.delete(b.at);
	for (let g = b.at >> 4; g <= (b.at + Math.max(1, b.size) - 1) >> 4; g++) granule.delete(g);
}
function area(p, n, what) {
	const b = granule.get(p >> 4);
	if (!b || p < b.at || p + n > b.at + b.size) bad('memory: ' + what + ' of ' + n + ' bytes at ' + p + ' outside live blocks');
	return b;
}
function freeAs(p, kind) {
	if (p === 0) return;
	const b = blocks.get(p);
	if (!b) bad('memory: ' + kind + ' release of an address that is not a live block');
	if (b.kind !== kind || b.owner) bad('memory: a block from ' + b.kind + (b.owner ? ' owned by another' : '') + ' released as ' + kind);
	release(b);
}
const _malloc = (n) => alloc(n, 'malloc');
const _free = (p) => freeAs(p, 'malloc');
function utf8At(p, max) {
	let e = p;
	while ((max === undefined || e < p + max)) { area(e, 1, 'read'); if (HEAPU8[e] === 0) break; e++; }
	return Buffer.from(buffer, p, e - p);
}
function UTF8ToString(p, max) { return p ? Buffer.from(utf8At(p, max)).toString('utf8') : ''; }
// (as in Emscripten, a surrogate always takes its neighbour with it)
function lengthBytesUTF8(s) {
	let n = 0;
	for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); if (c < 0x80) n++; else if (c < 0x800) n += 2; else if (c >= 0xD800 && c <= 0xDFFF) { n += 4; i++; } else n += 3; }
	return n;
}
function stringToUTF8(s, p, max) {
	if (!(max > 0)) return 0;
	const b = Buffer.from(s, 'utf8');
	let n = Math.min(b.length, max - 1);
	while (n > 0 && n < b.length && (b[n] & 0xC0) === 0x80) n--;
	area(p, n + 1, 'write');
	HEAPU8.set(b.subarray(0, n), p);
	HEAPU8[p + n] = 0;
	return n;
}
function stringToNewUTF8(s) { const n = lengthBytesUTF8(s) + 1, p = _malloc(n); stringToUTF8(s, p, n); return p; }
function writeArrayToMemory(a, p) { area(p, a.length, 'write'); HEAPU8.set(a, p); }
function getValue(p, type) {
	type = type || 'i8';
	if (type.endsWith('*')) { area(p, 4, 'read'); return HEAPU32[p >> 2]; }
	switch (type) {
	case 'i1': case 'i8': area(p, 1, 'read'); return HEAP8[p];
	case 'i16': area(p, 2, 'read'); return HEAP16[p >> 1];
	case 'i32': area(p, 4, 'read'); return HEAP32[p >> 2];
	}
	bad('getValue of type ' + type);
}
function setValue(p, v, type) {
	type = type || 'i8';
	const n = type === 'i8' || type === 'i1' ? 1 : type === 'i16' ? 2 : 4;
	area(p, n, 'write');
	if (n === 1) HEAP8[p] = v; else if (n === 2) HEAP16[p >> 1] = v; else HEAP32[p >> 2] = v;
}

// ---- the library, through the driver
let pending = Buffer.alloc(0);
function drv(...f) {
	const data = Buffer.from(f.join('\t') + '\n', 'latin1');
	for (let at = 0; at < data.length;) at += fs.writeSync(3, data, at);
	const chunks = [];
	const buf = Buffer.alloc(1 << 16);
	for (;;) {
		const n = fs.readSync(4, buf, 0, buf.length, null);
		if (n === 0) { process.stdout.write('LIBRARY DIED\n'); process.exit(3); }
		chunks.push(Buffer.from(buf.subarray(0, n)));
		if (buf[n - 1] === 10) break;
	}
	return Buffer.concat(chunks).toString('latin1').slice(0, -1);
}
const unhex = (h) => h === '_' ? Buffer.alloc(0) : Buffer.from(h, 'hex');
function cstr(bytes, kind, owner) { const p = alloc(bytes.length + 1, kind, owner); HEAPU8.set(bytes, p); HEAPU8[p + bytes.length] = 0; return p; }
function cstrArray(list, kind, owner) {
	const p = alloc(4 * (list.length + 1), kind, owner), b = blocks.get(p);
	list.forEach((e, i) => { HEAPU32[(p >> 2) + i] = cstr(e, 'element of ' + kind, b); });
	HEAPU32[(p >> 2) + list.length] = 0;
	return p;
}
const handles = new Map();
let slot = 0;
const H = (p) => handles.has(p) ? handles.get(p) : bad('call with a handle that is not live: ' + p);
const hexArg = (s) => s === null ? bad('NULL string argument') : s.toString('hex');
function obj(p, kind) { const b = blocks.get(p); if (!b || b.kind !== kind) bad('memory: not a live ' + kind + ': ' + p); return b; }
const optList = (a, kind) => a === 'N' ? 0 : cstrArray(a.split(' ').slice(1).map(unhex), kind);
const optStr = (a) => a === 'N' ? 0 : cstr(unhex(a.slice(1)), 'cstr');
const bytes = (p, n) => { if (n > 0) area(p, n, 'read'); return Buffer.from(buffer, p, n).toString('hex'); };
function pair(a, out) {
	const [t, n] = a.split(':').map(Number);
	area(out, 4, 'write');
	HEAPU32[out >> 2] = n;
	return t;
}
const errors = new Map();
const opt = (s) => s === null ? '-' : s.toString('hex');
const C = {
	voikkoInit(err, lang, path) {
		const k = slot++ % 200;
		const a = drv('init', k, opt(lang), opt(path));
		if (a === 'OK') {
			area(err, 4, 'write'); HEAPU32[err >> 2] = 0;
			const p = alloc(8, 'handle'); blocks.get(p).immortal = true; handles.set(p, k); return p;
		}
		const h = a.slice(2);
		if (!errors.has(h)) { const p = cstr(unhex(h), 'static'); blocks.get(p).immortal = true; errors.set(h, p); }
		area(err, 4, 'write'); HEAPU32[err >> 2] = errors.get(h);
		return 0;
	},
	voikkoTerminate(h) { drv('term', H(h)); handles.delete(h); release(blocks.get(h)); },
	voikkoSetBooleanOption: (h, o, v) => Number(drv('bo', H(h), o | 0, v | 0)),
	voikkoSetIntegerOption: (h, o, v) => Number(drv('io', H(h), o | 0, v | 0)),
	voikkoSpellCstr: (h, w) => Number(drv('spC', H(h), hexArg(w))),
	voikkoSuggestCstr: (h, w) => optList(drv('sgC', H(h), hexArg(w)), 'cstrArray'),
	voikkoGetAttributeValues: (h, w) => optList(drv('av', H(h), w === null ? bad('NULL string argument') : w.toString('latin1')), 'cstrArray'),
	voikkoHyphenateCstr: (h, w) => optStr(drv('hyC', H(h), hexArg(w))),
	voikkoInsertHyphensCstr: (h, w, s, c) => optStr(drv('ih', H(h), hexArg(w), hexArg(s), c | 0)),
	voikkoFreeCstrArray: (p) => freeAs(p, 'cstrArray'),
	voikkoFreeCstr: (p) => freeAs(p, 'cstr'),
	voikkoNextTokenCstr: (h, p, n, out) => pair(drv('tk1C', H(h), bytes(p, n)), out),
	voikkoNextSentenceStartCstr: (h, p, n, out) => pair(drv('st1C', H(h), bytes(p, n)), out),
	voikkoNextGrammarErrorCstr(h, text, n, start, skip) {
		if (text === null) bad('NULL string argument');
		if (n > text.length + 1 || n < 0) bad('memory: text of ' + text.length + ' bytes passed with length ' + n);
		const full = Buffer.concat([text, Buffer.alloc(1)]).subarray(0, n);
		const a = drv('grC', H(h), full.toString('hex'), start, skip, 'fi');
		if (a === 'N') return 0;
		const p = alloc(8, 'grammarError'), b = blocks.get(p);
		const f = a.split(':');
		b.info = { code: Number(f[0]), start: Number(f[1]), len: Number(f[2]), fi: f[4], args: [h, full.toString('hex'), start, skip] };
		b.sugg = f[3] === 'N' ? 0 : cstrArray(f[3].split(',').slice(1).map(unhex), 'suggestions of grammarError', b);
		return p;
	},
	voikkoGetGrammarErrorCode: (e) => obj(e, 'grammarError').info.code,
	voikkoGetGrammarErrorStartPos: (e) => obj(e, 'grammarError').info.start,
	voikkoGetGrammarErrorLength: (e) => obj(e, 'grammarError').info.len,
	voikkoGetGrammarErrorSuggestions: (e) => obj(e, 'grammarError').sugg,
	voikkoFreeGrammarError: (e) => freeAs(e, 'grammarError'),
	voikkoGetGrammarErrorShortDescription(e, lang) {
		const i = obj(e, 'grammarError').info;
		if (lang === null) bad('NULL language passed to voikkoGetGrammarErrorShortDescription');
		const d = drv('grC', H(i.args[0]), i.args[1], i.args[2], i.args[3], lang.toString('latin1')).split(':')[4];
		return d === 'N' ? 0 : cstr(unhex(d), 'errorMessage');
	},
	voikkoFreeErrorMessageCstr: (p) => freeAs(p, 'errorMessage'),
	voikkoAnalyzeWordCstr(h, w) {
		const a = drv('anC', H(h), hexArg(w));
		if (a === 'N') return 0;
		const list = a.split(' ').slice(1);
		const p = alloc(4 * (list.length + 1), 'analyses'), b = blocks.get(p);
		list.forEach((e, i) => {
			const q = alloc(8, 'analysis', b), qb = blocks.get(q);
			qb.map = e === '_' ? [] : e.split(';').map((kv) => [kv.slice(0, kv.indexOf('=')), kv.slice(kv.indexOf('=') + 1)]);
			qb.keys = cstrArray(qb.map.map((kv) => Buffer.from(kv[0], 'latin1')), 'keys of analysis', qb);
			HEAPU32[(p >> 2) + i] = q;
		});
		HEAPU32[(p >> 2) + list.length] = 0;
		return p;
	},
	voikko_free_mor_analysis: (p) => freeAs(p, 'analyses'),
	voikko_mor_analysis_keys: (p) => obj(p, 'analysis').keys,
	voikko_mor_analysis_value_cstr(p, key) {
		const k = (typeof key === 'number' ? Buffer.from(utf8At(key)) : key).toString('latin1');
		const kv = obj(p, 'analysis').map.find((e) => e[0] === k);
		return !kv || kv[1] === '!' ? 0 : cstr(unhex(kv[1]), 'analysis value');
	},
	voikko_free_mor_analysis_value_cstr: (p) => freeAs(p, 'analysis value'),
	voikkoGetVersion: () => { const p = cstr(unhex(drv('ver')), 'static'); blocks.get(p).immortal = true; return p; },
	malloc: _malloc, free: _free,
};
// the arguments that are strings for the C function, whatever the binding declares
const STR = { voikkoInit: [1, 2], voikkoSpellCstr: [1], voikkoSuggestCstr: [1], voikkoGetAttributeValues: [1], voikkoHyphenateCstr: [1], voikkoInsertHyphensCstr: [1, 2], voikkoNextGrammarErrorCstr: [1],
	voikkoGetGrammarErrorShortDescription: [1], voikkoAnalyzeWordCstr: [1], voikko_mor_analysis_value_cstr: [1] };
let calls = 0;
function ccall(name, ret, types, args) {
	const f = C[name];
	if (!f) bad('call of a function that is not exported: ' + name);
	calls++;
	args = args || [];
	types = types || [];
	const conv = [];
	for (let i = 0; i < Math.max(f.length, args.length); i++) {
		let a = args[i];
		const isStr = (STR[name] || []).includes(i);
		if (types[i] === 'string') {
			// Emscripten copies the string to its stack
			a = a === null || a === undefined || a === 0 ? null : Buffer.from(a, 'utf8');
			if (!isStr) bad('string passed as a number to ' + name);
			if (a && a.includes(0)) a = name === 'voikkoNextGrammarErrorCstr' ? a : a.subarray(0, a.indexOf(0));
		} else {
			a = a === undefined || a === null ? 0 : typeof a === 'boolean' ? Number(a) : a;
			if (isStr) {
				if (a === 0) a = null;
				else if (name === 'voikkoNextGrammarErrorCstr') { const b = area(a, 1, 'read'); a = Buffer.from(buffer.slice(a, b.at + b.size)); if (args[2] > a.length) bad('memory: text read past its block'); }
				else a = Buffer.from(utf8At(a));
			}
		}
		conv.push(a);
	}
	const r = f(...conv);
	return ret === 'string' ? UTF8ToString(r) : ret === 'boolean' ? Boolean(r) : ret === null ? undefined : r;
}
const cwrap = (name, ret, types) => (...args) => ccall(name, ret, types, args);
const Module = {};
const env = { Module, cwrap, ccall, _malloc, _free, getValue, setValue, UTF8ToString, stringToUTF8, lengthBytesUTF8, stringToNewUTF8, writeArrayToMemory, HEAP8, HEAPU8, HEAP16, HEAPU16, HEAP32, HEAPU32, HEAPF32, HEAPF64,
	stackSave: () => 0, stackRestore: () => undefined };
for (const n of Object.keys(C)) if (n !== 'malloc' && n !== 'free') env['_' + n] = (...a) => ccall(n, 'number', [], a);
new Function(...Object.keys(env), fs.readFileSync(process.argv[2], 'utf8'))(...Object.values(env));

// ---- calls
const V = new Map();
const s = (h) => { let t = ''; for (let i = 0; i + 4 <= h.length; i += 4) t += String.fromCharCode(parseInt(h.substr(i, 4), 16)); return t; };
const arg = (h) => h === '-' ? undefined : s(h);
const x = (t) => { if (typeof t !== 'string') return '?' + typeof t; if (t === '') return '_'; let o = ''; for (let i = 0; i < t.length; i++) o += t.charCodeAt(i).toString(16).padStart(4, '0'); return o; };
const lst = (l) => l === null ? 'N' : l.length ? 'L ' + l.join(' ') : 'L';
const only = (o, keys) => { const k = Object.keys(o).sort().join(); if (k !== keys.sort().join()) bad('object with the fields ' + k); return o; };
function one(op, f) {
	if (op === 'new') { V.set(f[1], f[3] === '-' ? Module.init(arg(f[2])) : Module.init(arg(f[2]), arg(f[3]))); return 'OK'; }
	if (op === 'newterm') { const v = Module.init(arg(f[2]), arg(f[3])); v.terminate(); v.terminate(); return 'OK'; }
	if (op === 'load') { let n = 0; Module.onLoad = (m) => { n += m === Module ? 1 : 100; }; Module.onRuntimeInitialized(); delete Module.onLoad; Module.onRuntimeInitialized(); return 'OK' + n; }
	const v = V.get(f[1]);
	switch (op) {
	case 'term': v.terminate(); return 'OK';
	case 'sp': { const r = v.spell(s(f[2])); return r === true ? '1' : r === false ? '0' : '?' + typeof r; }
	case 'sg': return lst(v.suggest(s(f[2])).map(x));
	case 'gr': return lst(v.grammarErrors(s(f[2]), s(f[3])).map((e) => only(e, ['errorCode', 'startPos', 'errorLen', 'suggestions', 'shortDescription']) && e.errorCode + ':' + e.startPos + ':' + e.errorLen + ':' + x(e.shortDescription) + ':' + e.suggestions.map(x).join(',')));
	case 'an': return lst(v.analyze(s(f[2])).map((a) => Object.keys(a).sort().map((k) => k + '=' + x(a[k])).join(';') || '_'));
	case 'tk': return lst(v.tokens(s(f[2])).map((t) => only(t, ['type', 'text']) && t.type + ':' + x(t.text)));
	case 'st': return lst(v.sentences(s(f[2])).map((t) => only(t, ['text', 'nextStartType']) && t.nextStartType + ':' + x(t.text)));
	case 'av': { const r = v.attributeValues(s(f[2])); return lst(r === null ? null : r.map(x)); }
	case 'hp': return 'S' + x(v.getHyphenationPattern(s(f[2])));
	case 'hd': return 'S' + x(v.hyphenate(s(f[2])));
	case 'hy': return 'S' + x(v.hyphenate(s(f[2]), s(f[3]), f[4] === '1'));
	case 'set': v[f[2]](f[3] === 'true' ? true : f[3] === 'false' ? false : /^-?\d+$/.test(f[3]) ? Number(f[3]) : f[3]); return 'OK';
	}
	return 'BAD op';
}
const live = () => { let n = 0; for (const b of blocks.values()) if (!b.immortal && !b.owner) n++; return n; };
const startedWith = live();
function answer(line) {
	const f = line.split('\t');
	let op = f[0], a, grow = 0;
	const star = op[0] === '*';
	if (star) op = op.slice(1);
	let last = null;
	for (let k = 0; k < (star ? 2 : 1); k++) {
		const before = live();
		broken = null;
		try { a = one(op, f); }
		catch (e) { a = typeof e === 'string' && e ? 'X:VoikkoException' : 'X:' + (e instanceof Error ? e.name + ': ' + e.message : typeof e); }
		if (broken) a = 'BAD ' + broken;
		if (k && a !== last) return 'BAD answers of the same call differ: ' + last + ' / ' + a + '\t0';
		last = a;
		grow = live() - before;
		if (grow && !star) a += ' BAD ' + grow + ' blocks left behind';
	}
	return a + (star ? '\t' + grow : '');
}
let data = fs.readFileSync(0, 'latin1').split('\n');
data.pop();
for (const l of data) fs.writeSync(1, answer(l).replace(/\n/g, ' ') + '\n');
fs.writeSync(1, '#calls ' + calls + '\n');
process.exit(0);
