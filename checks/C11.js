"use strict";
const fs = require("node:fs");
const { load } = require("../lib/load.js");
const { Bench, seqs, show } = require("../lib/harness.js");
const { Real, JPEG } = require("../lib/realtool.js");
const { obs } = require("../lib/obs.js");

const F = "/s/f.jpg", MARK = "__etvInvalidUtf8V1";
const set = (o, k, v) => Object.defineProperty(o, k, { value: v, enumerable: true, writable: true, configurable: true });
const mk = (...kv) => { const o = {}; for (let i = 0; i < kv.length; i += 2) set(o, kv[i], kv[i + 1]); return o; };
// a malformed leaf: repaired text and original bytes
class Bad { constructor(text, bytes) { this.text = text; this.bytes = Buffer.from(bytes); } }
const wire = (t, b) => ({ [MARK]: { replacement: "s:" + t, rawBase64: "b64:" + Buffer.from(b).toString("base64") } });
const LEAVES = [new Bad("caf\ufffd", [99, 97, 102, 0xe9]), new Bad("\ufffd", [0xff]), new Bad("\ufffd", [0, 0xff, 0]), new Bad("s:b64:\ufffd", [...Buffer.from("s:b64:"), 0x80]), new Bad("\ufffd0", Array.from({ length: 64 }, (_, i) => 255 - i))];
const PLAIN = ["ok", "é", "\ufffd", "s:x", "b64:AAAA", 5, true, MARK];
const MISS = [
  { [MARK]: null }, { [MARK]: "s:x" }, { [MARK]: [] }, { [MARK]: ["s:x", "b64:AAAA"] }, { [MARK]: {} }, { [MARK]: { replacement: "s:x" } }, { [MARK]: { rawBase64: "b64:AAAA" } },
  { [MARK]: { replacement: "x", rawBase64: "b64:AAAA" } }, { [MARK]: { replacement: "s:x", rawBase64: "AAAA" } }, { [MARK]: { replacement: 5, rawBase64: "b64:AAAA" } }, { [MARK]: { replacement: "s:x", rawBase64: 5 } },
  { [MARK]: { replacement: "s:x", rawBase64: "b64:AAAA", more: 1 } }, { [MARK]: { replacement: "s:x", rawBase64: "b64:AAAA" }, more: 1 }, { [MARK + "1"]: { replacement: "s:x", rawBase64: "b64:AAAA" } }, { [MARK.toLowerCase()]: { replacement: "s:x", rawBase64: "b64:AAAA" } },
  { replacement: "s:x", rawBase64: "b64:AAAA" }, [{ replacement: "s:x", rawBase64: "b64:AAAA" }], { [MARK]: { Replacement: "s:x", RawBase64: "b64:AAAA" } }, { [MARK]: { [MARK]: "s:x" } }, { [MARK]: { replacement: "S:x", rawBase64: "B64:AAAA" } },
];
const KEYS = ["a", "0", "__proto__", "constructor", "invalidUtf8Bytes"];

// wire form / repaired value / byte report of a model tree
function enc(t) { if (t instanceof Bad) return wire(t.text, t.bytes); if (Array.isArray(t)) return t.map(enc); if (t && typeof t === "object") { const o = {}; for (const k of Object.keys(t)) set(o, k, enc(t[k])); return o; } return t; }
function fix(t) { if (t instanceof Bad) return t.text; if (Array.isArray(t)) return t.map(fix); if (t && typeof t === "object") { const o = {}; for (const k of Object.keys(t)) set(o, k, fix(Object.getOwnPropertyDescriptor(t, k).value)); return o; } return t; }
function rep(t) {
  if (t instanceof Bad) return t.bytes;
  if (t === null || typeof t !== "object") return;
  let o;
  for (const k of Object.keys(t)) { const r = rep(Object.getOwnPropertyDescriptor(t, k).value); if (r !== undefined) set(o ??= {}, k, r); }
  return o;
}
// canonical text that sees own __proto__ keys and byte arrays of any kind
function canon(v) {
  if (v instanceof Uint8Array) return "<" + Buffer.from(v).toString("hex") + ">";
  if (Array.isArray(v)) return "[" + v.map(canon).join() + "]";
  if (v && typeof v === "object") return (Object.getPrototypeOf(v) === Object.prototype ? "{" : "FOREIGN{") + Object.keys(v).sort().map((k) => JSON.stringify(k) + ":" + canon(Object.getOwnPropertyDescriptor(v, k).value)).join() + "}";
  return v == null ? "undef" : JSON.stringify(v); // a read renders null as undefined
}

// all trees to a depth
function* trees(depth, quick) {
  const leaves = [LEAVES[0], LEAVES[2], "ok", 5];
  if (depth === 0) { yield* quick ? leaves.slice(0, 3) : leaves; return; }
  const sub = [...trees(depth - 1, true)];
  yield* sub;
  for (const a of sub) {
    yield [a];
    for (const k of KEYS) yield mk(k, a);
    for (const b of quick || depth > 1 ? [sub[0], sub[2]] : sub) { yield [a, b]; yield mk("a", a, "b", b); yield mk("1", a, "0", b); }
  }
}
const SPELL = [[], ["-api", "Filter=tr/a/z/"], ["-api", "filter=tr/a/z/"], ["-API", "FILTER=tr/a/z/"], ["-Api", "Filter^=tr/a/z/"], ["-api", "Filter="], ["-api", "Filter= "], ["-api", "Filter^="], ["-api", "Filter"], ["-api", "filter^"], ["-api", "-fast"], ["-fast", "-api", "Filter=tr/a/z/", "-fast2"],
  ["-api", "Filter=tr/a/z/", "-api", "Filter="], ["-api", "Filter=", "-api", "Filter=tr/a/z/"], ["-api", "Filter=tr/a/z/", "-api", "filter^="], ["-api", "LargeFileSupport=1"], ["-api", "FilterX=1"], ["-api", "NoFilter=tr/a/z/"], ["-api", "Filter =tr/a/z/"], ["-api", " Filter=tr/a/z/"], ["-api", "Filter=tr/a/z/;#=x"], ["-api", "geolocation", "-api", "Filter=tr/a/z/"], ["-fast2", "-G"], ["-xapi", "Filter=tr/a/z/"], ["-apix", "Filter=tr/a/z/"], ["-api", "xFilter=tr/a/z/"], ["-api", "xFilter"], ["-api", "Filters"], ["-api", "Filter^^"]];
// is the last effective Filter one of the caller's (checked against the vendored exiftool by the "spell" shard)
const customFilter = (a) => {
  let c = false;
  for (let i = 0; i + 1 < a.length; i++) {
    if (a[i].toLowerCase() !== "-api") continue;
    const m = /^([a-z]+)(\^?)(=?)([^]*)$/i.exec(a[i + 1]);
    if (m && m[1].toLowerCase() === "filter" && (m[3] || !m[4])) c = m[3] ? m[4].trim() !== "" : true;
  }
  return c;
};

module.exports = {
  id: "C11", level: "model_checking",
  rule: "distinct = distinct (tag tree, call) pairs, or distinct (malformed bytes / filter spelling) run on the real exiftool",
  bounds: (t) => ({ depth: t === "quick" ? 2 : 3, malformedLeaves: LEAVES.length, nearMisses: MISS.length, tags: 2, realByteStrings: t === "quick" ? "all up to length 3 over 6 bytes" : "all up to length 4 over 8 bytes", filterSpellings: SPELL.length }),
  assumptions: ["a value that is byte for byte the transport encoding of another value cannot be told from it"],
  shards(tier) {
    const s = [{ part: "miss" }, { part: "spell" }];
    for (let i = 0; i < 3; i++) s.push({ part: "tree", i, of: 3 });
    for (let i = 0; i < 3; i++) s.push({ part: "real", i, of: 3 });
    return s;
  },
  async run(shard, ctx) {
    if (shard.part === "real" || shard.part === "spell") return real(shard, ctx);
    const M = load(ctx.dist);
    let cur = "";
    const bench = new Bench(M, () => ({ out: cur }), { maxProcs: 1 });
    const FILTERED = ["-api", "Filter=tr/a/z/"];
    const check = async (key, tags, { filtered = false, args = filtered ? FILTERED : undefined } = {}) => {
      const raw = enc(tags);
      for (const [call, f] of [["read", (et) => et.read(F, args ? { readArgs: args } : {})], ["raw", (et) => et.readRaw(F, args ? { readArgs: args } : {})]]) {
        cur = JSON.stringify([{ SourceFile: F, ...raw }].map((o) => { for (const k of Object.keys(raw)) set(o, k, raw[k]); return o; }));
        const r = await bench.one(() => f(bench.et));
        const id = `${call}:${filtered}:${key}`;
        ctx.eval(id); ctx.add("transitions");
        if (r.status !== "fulfilled") { ctx.violate(id, r.status + " " + (r.reason && r.reason.stack), { cur }); continue; }
        const got = r.value;
        for (const k of Object.keys(tags)) {
          const v = Object.getOwnPropertyDescriptor(got, k)?.value;
          const want = filtered ? raw[k] : fix(tags[k]);
          if (canon(v) !== canon(want) && !(v && typeof v === "object" && v.rawValue === want)) ctx.violate(id, `${k} is ${canon(v)}, expected ${canon(want)}`, { cur });
        }
        const want = filtered ? undefined : rep(tags);
        if (canon(got.invalidUtf8Bytes) !== canon(want)) ctx.violate(id, `byte report ${canon(got.invalidUtf8Bytes)}, expected ${canon(want)}`, { cur });
        ctx.outcome(call + (want === undefined ? "clean" : "bytes"));
        const back = M.parseJSON(JSON.stringify(got));
        if (canon(back.invalidUtf8Bytes) !== canon(want)) ctx.violate("json:" + id, `after a JSON round trip ${canon(back.invalidUtf8Bytes)}, expected ${canon(want)}`, { cur });
        const shared = (n) => n instanceof Uint8Array ? n.buffer.byteLength !== n.byteLength : n && typeof n === "object" ? Object.values(n).some(shared) : false;
        if (want && shared(got.invalidUtf8Bytes)) ctx.violate("alias:" + id, "reported bytes expose an unrelated buffer");
      }
    };
    try {
      if (shard.part === "tree") {
        let n = 0;
        const NAMES = ["Title", "CreateDate", "Valid", "XMP:Foo", "toString", "9"];
        for (const t of trees(ctx.quick ? 2 : 3, ctx.quick)) {
          if (n++ % shard.of !== shard.i) continue;
          await check("t" + canon(fix(t)) + canon(rep(t)), mk("Title", t));
          await check("f" + canon(fix(t)) + canon(rep(t)), mk("Title", t), { filtered: true });
        }
        // every short repaired text, and every byte value
        for (const s of seqs([" ", "\n", "\t", "\ufffd", "s:", "é", "0", "\u0000", '"'], ctx.quick ? 3 : 4, 1)) { if (n++ % shard.of !== shard.i) continue; await check("x" + show(s.join("")), mk("Title", new Bad(s.join(""), Buffer.from(s.join(""), "latin1")))); }
        for (let i = 0; i < 256; i++) { if (n++ % shard.of !== shard.i) continue; await check("y" + i, mk("Title", new Bad("\ufffd", [i]), "Sub", [new Bad("\ufffdx", [0x80, i, 255 - i])])); }
        for (let len = 1; len <= 300; len++) { if (n++ % shard.of !== shard.i) continue; await check("l" + len, mk("Title", new Bad("\ufffd".repeat(len), Array.from({ length: len }, (_, i) => (i * 37 + len) & 255)))); }
        for (const a of NAMES) for (const b of NAMES) if (a !== b) for (const x of [...LEAVES, ...PLAIN]) for (const y of [LEAVES[0], "ok", [LEAVES[1]], mk("k", "v")]) { if (n++ % shard.of !== shard.i) continue; await check(`p${a}:${b}:${show(x)}:${show(y)}`, mk(a, x, b, y)); }
      } else {
        for (const a of SPELL) if (!a.includes("-G")) for (const l of LEAVES.slice(0, 4)) await check(`spelled ${show(a)} ${canon(rep(l))}`, mk("Title", l, "Sub", [l, "x"]), { filtered: customFilter(a), args: a });
        for (const m of MISS) {
          const sig = show(m);
          for (const filtered of [false, true]) {
            await check("m" + sig, mk("Title", m), { filtered });
            await check("ml" + sig, mk("Title", [m, "x"]), { filtered });
            await check("ms" + sig, mk("Title", mk("f", m)), { filtered });
            for (const b of LEAVES.slice(0, 2)) { await check("mb" + sig + canon(rep(b)), mk("Title", m, "Sub", b), { filtered }); await check("mlb" + sig + canon(rep(b)), mk("Title", [b, m, b]), { filtered }); await check("msb" + sig + canon(rep(b)), mk("Title", mk("m", m, "b", b)), { filtered }); }
          }
        }
        // near misses with a malformed leaf inside them
        for (const b of LEAVES) { await check("in1" + canon(rep(b)), mk("Title", mk(MARK, b))); await check("in2" + canon(rep(b)), mk("Title", mk(MARK, mk("replacement", b, "rawBase64", "b64:AAAA")))); await check("in3" + canon(rep(b)), mk("Title", mk(MARK, mk("replacement", "s:x", "rawBase64", "b64:AAAA"), "z", b))); await check("in4" + canon(rep(b)), mk("Title", mk(MARK, [b]))); }
        // tags that a read drops (untrusted coordinates) leave no report behind; raw reads keep both
        for (const b of LEAVES) {
          cur = JSON.stringify([{ SourceFile: F, GPSLatitude: 0, GPSLongitude: 0, GPSAreaInformation: wire(b.text, b.bytes), Title: "x" }]);
          const r = await bench.one(() => bench.et.read(F));
          ctx.eval("drop" + canon(rep(b))); ctx.add("transitions");
          if (r.status !== "fulfilled" || r.value.invalidUtf8Bytes !== undefined) ctx.violate("drop" + canon(rep(b)), "dropped tag still reported: " + canon(r.value?.invalidUtf8Bytes));
        }
      }
      ctx.sample({ ...shard });
    } finally { bench.close(); }
  },
};

// JPEG comment holding arbitrary bytes
const withComment = (b) => Buffer.concat([JPEG.subarray(0, 2), Buffer.from([0xff, 0xfe, (b.length + 2) >> 8, (b.length + 2) & 255]), b, JPEG.subarray(2)]);
const valid = (b) => { try { new TextDecoder("utf-8", { fatal: true, ignoreBOM: true }).decode(b); return true; } catch { return false; } };
async function real(shard, ctx) {
  if (!Real.available()) { ctx.add("realUnavailable"); return; }
  const M = load(ctx.dist);
  const R = new Real();
  const et = new M.ExifTool({ maxProcs: 2, taskRetries: 0, geolocation: false, logger: () => ({ trace() {}, debug() {}, info() {}, warn() {}, error() {} }) });
  const settle = (p) => p.then((value) => ({ value }), (e) => ({ e }));
  try {
    if (shard.part === "spell") {
      const bytes = Buffer.from([0x61, 0xe9, 0x61]);
      fs.writeFileSync(R.path("s.jpg"), withComment(bytes));
      await R.exec(["-XMP-dc:Title=abca", "-overwrite_original", R.path("s.jpg")]);
      for (const a of SPELL) for (const call of ["read", "readRaw"]) {
        if (/api./.test(a[0]) || a[0] === "-xapi") continue; // not an option at all
        const r = await settle(et[call](R.path("s.jpg"), { readArgs: a }));
        const key = `spell:${call}:${show(a)}`;
        ctx.eval(key); ctx.add("transitions"); ctx.add("traces");
        if (r.e) { ctx.violate(key, "rejected: " + r.e); continue; }
        const title = r.value.Title ?? r.value["XMP:Title"], com = r.value.Comment ?? r.value["File:Comment"];
        const rb = r.value.invalidUtf8Bytes, got = rb && (rb.Comment ?? rb["File:Comment"]);
        // a bare "Filter" is the constant filter 1
        const custom = /^filter\^?$/i.test(a.at(-1)) || title === "zbcz" || (title !== "abca" && title !== undefined);
        ctx.outcome(custom ? "custom" : "builtin");
        if (custom !== customFilter(a)) ctx.violate("model:" + key, `the model says ${customFilter(a)}`);
        if (custom ? rb !== undefined : !(got && Buffer.from(got).equals(bytes))) ctx.violate(key, `title ${show(title)}, comment ${show(com)}, bytes ${canon(rb)}`);
        if (!custom && (com !== "a\ufffda" || Object.keys(rb || {}).length !== 1)) ctx.violate(key, `comment ${show(com)} report ${canon(rb)}`);
        if (com !== null && typeof com === "object" && MARK in com) ctx.violate(key, "transport encoding leaked");
      }
      // ExifTool runs no Filter on values read without print conversion
      for (const [how, o] of [["-n", { readArgs: ["-n"] }], ["numericTags", { numericTags: ["Comment"] }]]) {
        const r = await settle(et.read(R.path("s.jpg"), o));
        const key = "numeric:" + how;
        ctx.eval(key); ctx.add("transitions"); ctx.add("traces");
        const got = r.value?.invalidUtf8Bytes?.Comment;
        if (!(got && Buffer.from(got).equals(bytes))) ctx.known(key, `malformed text read with ${how}: ${show(r.value?.Comment)}, bytes ${canon(r.value?.invalidUtf8Bytes)}`);
      }
      return;
    }
    const A = ctx.quick ? [0x41, 0xe9, 0xc3, 0xa9, 0xff, 0x00] : [0x41, 0xe9, 0xc3, 0xa9, 0xff, 0x00, 0x0a, 0xf0];
    let n = 0;
    for (const s of seqs(A, ctx.quick ? 3 : 4, 1)) {
      if (n++ % shard.of !== shard.i) continue;
      const b = Buffer.from(s);
      const f = R.path(`c${n}.jpg`);
      fs.writeFileSync(f, withComment(b));
      const kept = Buffer.from(s.slice(0, s.findLastIndex((x) => x !== 0) + 1));
      for (const call of ["read", "readRaw"]) {
        const r = await settle(et[call](f, { readArgs: ["-fast2"] }));
        const key = `real:${call}:${b.toString("hex")}`;
        ctx.eval(key); ctx.add("transitions"); ctx.add("traces");
        if (r.e) { ctx.violate(key, "rejected " + r.e); continue; }
        const bad = !valid(kept), got = r.value.invalidUtf8Bytes;
        if (bad ? !(got && Object.keys(got).length === 1 && got.Comment instanceof Uint8Array && Buffer.from(got.Comment).equals(kept)) : got !== undefined) ctx.violate(key, `bytes ${canon(got)}, file holds ${kept.toString("hex")}`);
        const com = r.value.Comment;
        const text = new TextDecoder().decode(Buffer.from(kept.filter((x) => x !== 0))).replace(/\ufffd+/g, "");
        if (com === undefined ? kept.length && text.trim() : String(com).replace(/\ufffd+/g, "").trim() !== text.trim()) ctx.violate(key, `comment ${show(com)}, expected ${show(text)}`);
        if (bad && !String(com).includes("\ufffd")) { const clean = Buffer.from(kept.filter((x) => x !== 0)); if (!valid(clean)) ctx.violate(key, "no replacement character in " + show(com)); }
        ctx.outcome(call + bad);
      }
      fs.rmSync(f);
    }
  } finally { await et.end().catch(() => {}); R.close(); }
}
