import fs from 'fs';
import { createRequire } from 'module';
import { pathToFileURL } from 'url';
const require = createRequire(import.meta.url);
const NULL8 = 'fefefefefefefe7f';
const COMPAT = process.argv[5] === 'compat';
const buf = n => COMPAT ? new Array(n).fill(0) : new Uint8Array(n);
const conv = u => COMPAT ? Array.from(u) : u;
const S = {}, E = {}, mods = {};
const norm = s => s.replace(/_/g, '').toLowerCase();

function parse(s) {
  if (s[0] === 'A') { const c = s.indexOf(':'); return { k: 'A', n: +s.slice(1, c), el: parse(s.slice(c + 1)) }; }
  if (s.startsWith('E:') || s.startsWith('S:')) return { k: s[0], name: s.slice(2) };
  return { k: s[0], n: +(s.slice(1) || 0) };
}
// locator: file#dotted.path (cjs) or file#Name (esm)
async function resolve(loc, esm) {
  const [file, path] = loc.split('#');
  if (!(file in mods)) mods[file] = esm ? (await import(pathToFileURL(file))).default : require(file);
  let o;
  const parts = path.split('.');
  const last = parts[parts.length - 1];
  for (let i = 0; i < parts.length - 1 && o === undefined; i++) {
    o = mods[file];
    for (const p of parts.slice(i)) { if (o === undefined) break; o = o[p]; }
  }
  if (o === undefined) o = mods[file][last];
  if (o === undefined) throw new Error('cannot find ' + loc);
  return o;
}
async function meta(path, esm) {
  for (const line of fs.readFileSync(path, 'utf8').split('\n')) {
    const a = line.split(' ');
    if (a[0] === 'E') {
      const e = { num: {}, c: await resolve(a[2], esm) };
      let p = 4;
      for (let i = 0; i < +a[3]; i++) { e.num[a[p]] = +a[p + 1]; p += 2; }
      E[a[1]] = e;
    } else if (a[0] === 'S') {
      const s = { c: await resolve(a[2], esm), f: [], m: [] };
      S[a[1]] = s;
      const o = new s.c();
      const keys = {};
      for (const k of Object.keys(o)) keys[norm(k)] = k;
      const pk = {};
      for (const k of Object.getOwnPropertyNames(s.c.prototype)) pk[norm(k)] = k;
      let p = 4;
      for (let i = 0; i < +a[3]; i++) {
        const k = keys[norm(a[p])];
        if (k === undefined) throw new Error('no field ' + a[1] + '.' + a[p]);
        s.f.push({ name: k, t: parse(a[p + 1]) }); p += 2;
      }
      const n = +a[p++];
      for (let i = 0; i < n; i++) { s.m.push({ kind: a[p], name: a[p + 1], t: parse(a[p + 2]), pub: pk[norm(a[p + 1])] || keys[norm(a[p + 1])] }); p += 3; }
    }
  }
}
const dv = new DataView(new ArrayBuffer(8));
function scalar(t, b) { // b: Buffer of 8
  for (let i = 0; i < 8; i++) dv.setUint8(i, b[i]);
  if (t.k === 'b') return dv.getBigUint64(0, true) !== 0n;
  if (t.k === 'f') return t.n === 32 ? dv.getFloat32(0, true) : dv.getFloat64(0, true);
  if (t.n === 64) return t.k === 'i' ? dv.getBigInt64(0, true) : dv.getBigUint64(0, true);
  return Number(t.k === 'i' ? dv.getBigInt64(0, true) : dv.getBigUint64(0, true));
}
function unscalar(t, v) {
  dv.setBigUint64(0, 0n, true);
  if (t.k === 'b') dv.setBigUint64(0, v === true ? 1n : v === false ? 0n : 0xbad0n, true);
  else if (t.k === 'f') { if (typeof v !== 'number') return 'badtype!!'; if (t.n === 32) dv.setFloat32(0, v, true); else dv.setFloat64(0, v, true); }
  else {
    if (t.n === 64 ? typeof v !== 'bigint' : !Number.isInteger(v)) return 'badtype' + typeof v + String(v).replace(/\W/g, '_');
    if (t.k === 'i') dv.setBigInt64(0, BigInt(v), true); else { if (BigInt(v) < 0n) return 'negative'; dv.setBigUint64(0, BigInt(v), true); }
  }
  return Buffer.from(dv.buffer).toString('hex');
}
function load(t, r) {
  const take = n => { r.p += n; return r.b.subarray(r.p - n, r.p); };
  switch (t.k) {
    case 'A': { const o = []; for (let i = 0; i < t.n; i++) o.push(load(t.el, r)); return o; }
    case 's': return new TextDecoder('utf-8', { ignoreBOM: true }).decode(take(take(4).readUInt32LE(0)));
    case 'y': { const b = new Uint8Array(take(take(4).readUInt32LE(0))); return COMPAT ? Array.from(b) : b; }
    case 'E': { const b = take(8); return b.toString('hex') === NULL8 ? undefined : Number(b.readBigUInt64LE(0)); }
    case 'S': { const o = new (S[t.name].c)(); loads(S[t.name], o, r); return o; }
  }
  return scalar(t, take(8));
}
let POISON = false;
function loads(s, o, r) {
  if (POISON) { // whatever a constant member holds must not matter when encoding
    const known = new Set(s.f.map(f => f.name));
    for (const k of Object.keys(o)) if (!known.has(k) && (typeof o[k] === 'number' || typeof o[k] === 'bigint' || typeof o[k] === 'boolean')) { try { o[k] = typeof o[k] === 'bigint' ? 77n : 77; } catch (e) { } }
  }
  for (const f of s.f) o[f.name] = load(f.t, r);
}
function dump(t, v, w) {
  switch (t.k) {
    case 'A': if (v.length !== t.n) w.push('badlen' + v.length); for (let i = 0; i < t.n; i++) dump(t.el, v[i], w); return;
    case 's': case 'y': { const b = t.k === 's' ? Buffer.from(v, 'utf8') : Buffer.from(v); const l = Buffer.alloc(4); l.writeUInt32LE(b.length); w.push(l.toString('hex'), b.toString('hex')); return; }
    case 'E': { if (v === undefined || v === null) { w.push(NULL8); return; }
      const n = typeof v === 'number' ? v : E[t.name].num[v]; if (n === undefined) { w.push('badenum' + v); return; }
      dv.setBigUint64(0, BigInt(n), true); w.push(Buffer.from(dv.buffer).toString('hex')); return; }
    case 'S': dumps(S[t.name], v, w); return;
  }
  w.push(unscalar(t, v));
}
function dumps(s, o, w) { for (const f of s.f) dump(f.t, o[f.name], w); }
const dh = (s, o) => { const w = []; dumps(s, o, w); return w.join('') || '-'; };
const U = s => s === '-' ? Buffer.alloc(0) : Buffer.from(s, 'hex');
const H = b => Buffer.from(b).toString('hex') || '-';
const mk = (s, c) => { const o = new s.c(); if (c.length) loads(s, o, { b: c, p: 0 }); return o; };
const ex = e => 'EXC:' + (e && e.constructor ? e.constructor.name : 'x');

function doLine(line) {
  const t = line.split(' '), s = S[t[2]];
  switch (t[0]) {
    case 'E': {
      const fill = +t[3], pad = +t[4], mode = t[5];
      POISON = true; const o = mk(s, U(t[6])); POISON = false;
      const es = mode === 'a' ? s.c.encode_size(o) : o.encode_size();
      const b = buf(es + 2 * pad).fill(fill);
      const ret = mode === 'a' ? s.c.encode(o, b, pad) : o.encode(b, pad);
      const b2 = buf(es);
      const ret2 = mode === 'a' ? s.c.encode(o, b2) : o.encode(b2);
      return `${es} ${ret} ${H(b)} ${ret2} ${H(b2)} ${dh(s, o)}`;
    }
    case 'D': {
      const mode = t[3], start = +t[4], tail = +t[5], w = U(t[7]);
      let b = new Uint8Array(start + w.length + tail).fill(0xEE); b.set(w, start); b = conv(b);
      const o = mk(s, U(t[6]));
      const ret = mode === 'a' ? s.c.decode(o, b, start) : start === 0 ? o.decode(b) : o.decode(b, start);
      // an absolute end offset would be reported relative to the buffer
      return `${ret} ${ret >= 0 ? dh(s, o) : '-'}`;
    }
    case 'Z': {
      const start = +t[3], w = U(t[4]), o = new s.c(), out = [];
      for (let k = 0; k <= w.length; k++) {
        const b = new Uint8Array(start + k).fill(0xEE); b.set(w.subarray(0, k), start);
        out.push(start === 0 ? (k & 1 ? s.c.decode_size(b) : o.decode_size(b)) : (k & 1 ? s.c.decode_size(b, start) : o.decode_size(b, start)));
      }
      return out.join(',');
    }
    case 'T': {
      const w = U(t[3]); let out = '';
      for (let k = 0; k < w.length; k++) {
        const b = new Uint8Array(w.subarray(0, k));
        try { out += new s.c().decode(b) < 0 ? '-' : '+'; } catch (e) { out += 'E'; }
      }
      return out + '.';
    }
    case 'F': {
      const w = new Uint8Array(U(t[3])), o = new s.c(); let ds;
      try { ds = '' + o.decode_size(w); } catch (e) { ds = ex(e); }
      let ret;
      try { ret = o.decode(w); } catch (e) { return `${ds} ${ex(e)} -`; }
      return `${ds} ${ret} ${ret >= 0 ? dh(s, o) : '-'}`;
    }
    case 'L': {
      const b = conv(new Uint8Array(U(t[3]))), o = new s.c(), ret = o.decode(b), a = dh(s, o);
      for (let i = 0; i < b.length; i++) if (b[i] >= 2) b[i] ^= 1;
      return `${ret} ${a} ${dh(s, o)}`;
    }
    case 'G': {
      const o = mk(s, U(t[3])); let out = '';
      for (const m of s.m) if (m.kind === 'get') out += m.pub === undefined ? `${m.name}=MISSING ` : `${m.name}=${unscalar(m.t, o[m.pub])} `;
      return out + '.';
    }
    case 'S': {
      const o = mk(s, U(t[3]));
      for (const m of s.m) if (m.kind === 'set' && m.name === t[4]) {
        if (m.pub === undefined) return 'MISSING';
        const b = Buffer.alloc(8); b.writeBigUInt64LE(BigInt('0x' + t[5]));
        o[m.pub] = scalar(m.t, b);
      }
      return dh(s, o);
    }
  }
  if (t[0] === 'M') return alternates(s, U(t[3]), U(t[4]), U(t[5]));
  if (t[0] === 'N') { const c = E[t[3]].c; return Object.keys(c).map(k => /^\d+$/.test(k) ? '' : `${k}=${c[k]}${c[c[c[k]]] === c[k] ? '' : '(no-name)'} `).join('') + '.'; }
  if (t[0] === 'Y') { const a = new s.c().encode(); return `${a.length} ${H(a)}`; }
  if (t[0] === 'K') return 'na';
  if (t[0] === 'J') { // the constant members
    const o = new s.c(), ks = {};
    for (const k of Object.keys(o)) ks[norm(k)] = k;
    return t.slice(3).map(x => { const [n, ty] = x.split('='), T = parse(ty); let v = o[ks[norm(n)]]; if (Number.isInteger(v) && T.k !== 'f' && T.n === 64) v = BigInt(v); /* small ones are plain numbers */ return `${n}=${norm(n) in ks ? unscalar(T, v) : 'MISSING'} `; }).join('') + '.';
  }
  if (t[0] === 'Q') return history(s, t.slice(3));
  return 'EXC badop';
}
// the same members in an object of no class; enums by number or by name
function plain(s, o, names) {
  const f = (t, v) => t.k === 'A' ? (ArrayBuffer.isView(v) ? v : Array.from(v, x => f(t.el, x)))
    : t.k === 'E' && typeof v === 'number' && names ? (E[t.name].c[v] === undefined ? v : E[t.name].c[v]) : v;
  const p = {};
  for (const x of s.f) p[x.name] = f(x.t, o[x.name]);
  return p;
}
function alternates(s, c, wire, fill) {
  const o = mk(s, c), ref = new Uint8Array(Array.from(o.encode())), bad = [];
  const dyn = s.c.dynamic(), n = ref.length;
  const enc = (name, f, off = 0) => { const b = buf(n + off + 2); fill.forEach((x, i) => { if (i < n) b[off + i] = x; }); let r; try { r = f(b); } catch (e) { bad.push(name + '!'); return; }
    if (r === undefined || typeof r !== 'number' ? H(r || []) !== H(ref) : r !== n || H(Array.from(b).slice(off, off + n)) !== H(ref) || Array.from(b).some((x, i) => (i < off || i >= off + n) && x)) bad.push(name); };
  enc('obj.encode(b)', b => o.encode(b)); enc('obj.encode(b,start)', b => o.encode(b, 2), 2); enc('encode(obj,b)', b => s.c.encode(o, b)); enc('encode(obj,b,start)', b => s.c.encode(o, b, 2), 2);
  enc('obj.encode()', () => o.encode()); enc('encode(obj)', () => s.c.encode(o));
  if (s.c.encode_size(o) !== n || o.encode_size() !== n) bad.push('encode_size');
  for (const names of [false, true]) {
    const p = plain(s, o, names), tag = names ? 'names' : 'numbers';
    enc('encode(plain ' + tag + ')', b => s.c.encode(p, b)); enc('create(' + tag + ')', b => s.c.create(p).encode(b)); enc('new(' + tag + ')', b => new s.c(p).encode(b));
    if (s.c.encode_size(p) !== n) bad.push('encode_size(plain)');
  }
  for (let k = 0; k < 3 && k <= wire.length; k++) {
    const w = conv(new Uint8Array(wire.subarray(0, wire.length - k))), q0 = new Uint8Array(w.length + 3); q0.set(w, 3); const q = conv(q0), x = new s.c(), want = s.c.decode_size(w);
    if (x.decode_size(w) !== want || x.decode_size(q, 3) !== want || s.c.decode_size(q, 3) !== want || s.c.decode_size(w, 0) !== want) bad.push('decode_size');
    if (want > 0) {
      const l = [], tr = f => { const y = new s.c(); l.push(f(y) + ' ' + dh(s, y)); };
      tr(y => y.decode(w)); tr(y => y.decode(w, 0)); tr(y => y.decode(q, 3)); tr(y => s.c.decode(y, w)); tr(y => s.c.decode(y, q, 3)); tr(y => s.c.decode(y, w, 0));
      if (new Set(l).size !== 1) bad.push('decode');
    }
  }
  return `${dyn ? '1 0' : '0 ' + s.c.size()} ${[...new Set(bad)].map(x => x.replace(/ /g, '_') + ',').join('')}-`;
}
function leaves(t, v, out) {
  if (t.k === 'A') for (const x of v) leaves(t.el, x, out);
  else if (t.k === 's' || t.k === 'y') out.push([t, v]);
  else if (t.k === 'S') for (const f of S[t.name].f) leaves(f.t, v[f.name], out);
  return out;
}
function history(s, steps) {
  const o = new s.c(), out = [], snap = [];
  for (const st of steps) {
    const k = st[0], a = st.slice(1);
    if (k === 'c' || k === 'a') { loads(s, o, { b: U(a), p: 0 }); out.push('ok'); }
    else if (k === 'm' || k === 'i') {
      const [i, h] = a.split(':'), f = s.f[+i.split(',')[0]], r = { b: U(h), p: 0 };
      if (k === 'm') o[f.name] = load(f.t, r); else o[f.name][+i.split(',')[1]] = load(f.t.el, r);
      out.push('ok');
    } else if (k === 'd') {
      const ret = o.decode(conv(new Uint8Array(U(a))));
      out.push(ret >= 0 ? ret + ':' + dh(s, o) : '' + ret);
      if (ret >= 0) { const l = []; for (const f of s.f) leaves(f.t, o[f.name], l); snap.push(l); }
    } else if (k === 'e' || k === 'f') { const b = buf(o.encode_size()).fill(k === 'f' ? 255 : 0); o.encode(b); out.push(H(b)); }
    else if (k === 'n' || k === 'N') out.push(dh(s, o));
  }
  out.push('|');
  for (const l of snap) { const w = []; for (const [t, v] of l) dump(t, v, w); out.push(w.join('') || '-'); }
  return out.join(' ');
}
await meta(process.argv[2], process.argv[4] === 'esm');
const out = [];
for (const l of fs.readFileSync(process.argv[3], 'utf8').split('\n')) {
  if (!l || l[0] === '#') continue;
  let r;
  try { r = doLine(l); } catch (e) { r = 'EXC ' + (e && e.constructor ? e.constructor.name : 'x') + ':' + String(e && e.message).replace(/\s/g, '_').slice(0, 160); }
  out.push(l.split(' ')[1] + ' ' + r);
}
out.push('END');
fs.writeFileSync(1, out.join('\n') + '\n');
