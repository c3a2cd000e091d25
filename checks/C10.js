"use strict";
const fs = require("node:fs");
const path = require("node:path");
const { load } = require("../lib/load.js");
const { Bench, words, show } = require("../lib/harness.js");
const { Real } = require("../lib/realtool.js");
const { obs } = require("../lib/obs.js");

const F = "/s/f.jpg";
const NULLISH = new Set(["undef", "null", "undefined"]);
// own-property object, whatever the key
const set = (o, k, v) => Object.defineProperty(o, k, { value: v, enumerable: true, writable: true, configurable: true });
const mk = (...kv) => { const o = {}; for (let i = 0; i < kv.length; i += 2) set(o, kv[i], kv[i + 1]); return o; };

const NAMES = ["Title", "Rating", "DateTimeOriginal", "CreateDate", "ModifyDate", "FileModifyDate", "SubSecTime", "SubSecCreateDate", "SubSecTimeOriginal", "GPSDateTime", "GPSTimeStamp", "GPSDateStamp", "GPSAltitude", "GPSMapDatum", "GeolocationCity", "TimeZone", "TimeZoneOffset", "OffsetTime", "OffsetTimeOriginal", "MIMEType", "DateStampMode", "Sharpness", "Firmware", "DateDisplayFormat", "When", "HistoryWhen", "CreatorTool", "ModificationNumber", "MetadataDate", "TimeCreated", "DateTimeUTC", "Creator", "Timecode", "Valid", "JFIFValid", "IsValid", "InvalidTag", "Lightvalue", "constructor", "toString", "hasOwnProperty", "valueOf", "__proto__", "Constructor", "length", "0", "a.b", "Tag__proto__", "IPTCDigest", "ExposureTime", "Lens-ID", "SourceFileX", "ErrorX", "PDFVersion", "ProfileVersion", "VersionID", "null", "undefined"];
const STRS = ["", " ", "0", "00", "000", "1", "01", "7", "yes", "No", "TRUE", "off", "undef", "null", "undefined", "NULL", "Null", "Undef", "Undefined", "nil", "None", "n/a", "NaN", "nullify", "undefined behaviour", "inf", "Infinity",
  "2023:01:15 11:30:00", "2023:01:15 11:30:00.123", "2023:01:15 11:30:00.1", "2023:01:15 11:30:00.123456", "2023:01:15 11:30:00-08:00", "2023:01:15 11:30:00Z", "2023:01:15 11:30:00+05:45", "2023:02:30 10:00:00", "0000:00:00 00:00:00", "2023:13:01 00:00:00", "2023:01:15 24:00:01", "2023:01:15 11:60:00", "2023:01:15", "2023-01-15", "2023:02:30", "2023:01", "2023", "9999", "12", "2023-01-15T11:30:00Z", "2023-01-15T11:30:00.25+09:00", "11:30:00", "11:30", "11:30:00.5", "11:30:00+02:00", "24:00:00", "25:00:00", "11:60",
  "(Binary data 12345 bytes, use -b option to extract)", "Binary data 7 bytes", "Binary 7 bytes", "binary stars", "base64:AAAA", "12.5", "-3", "1e3", "0x1f", "12 34", "1 2 3", "a b c", "ünïcödé ☃ 😀", "{\"a\":1}", "[1]", "a\nb", "\ta ", "Jan 15 2023 11:30:00", "Jan 15 2023", "Monday", "2023:01:15 11:30:00 PST", "UTC+3", "+08:00", "America/Lima", "video/mp4", "image/jpeg", "1/60", "0.5 s", "00:00:01:12", "&amp;", "s:b64:", "\u0000x", "constructor", "2023:01:15 11:30:00 to 12:00"];
const LEAF = [...STRS, 0, 1, -1, 1.5, -0.25, 1e21, 123456789012345, 2023, 20230115, true, false, null];
const SHAPES = [
  (v) => [v], (v) => [v, "x"], (v) => ["null", v, null], (v) => [[v], v], () => [], () => ({}), () => [[]], () => [{}],
  (v) => mk("a", v), (v) => mk("When", v), (v) => mk("CreateDate", v, "Title", v), (v) => mk("constructor", v, "toString", v), (v) => mk("__proto__", v), (v) => mk("__proto__", mk("polluted", v)), (v) => mk("x", mk("y", [v, mk("DateTime", v)])), (v) => [mk("a", v), mk("b", v)],
];
const FEW = ["", "null", "Null", "x", "0", "2023:01:15 11:30:00", "2023:01:15", "11:30:00.5", "(Binary data 5 bytes)", "yes", 3, true, null];

// independent reading of a canonical date/time text
const RE = /^(?:(\d{4})[:-](\d\d)(?:[:-](\d\d))?)?(?:(?:^|[ T])(\d\d):(\d\d)(?::(\d\d)(?:\.(\d+))?)?)?(Z|[+-]\d\d:\d\d)?$/;
function fields(s) {
  const m = RE.exec(s.trim());
  if (!m) return undefined;
  const n = (x) => (x === undefined ? undefined : Number(x));
  return { y: n(m[1]), mo: n(m[2]), d: n(m[3]), h: n(m[4]), mi: n(m[5]), s: n(m[6]), ms: m[7] === undefined ? undefined : Math.floor(Number("0." + m[7]) * 1000 + 1e-6), off: m[8] === undefined ? undefined : m[8] === "Z" ? 0 : (m[8][0] === "-" ? -1 : 1) * (Number(m[8].slice(1, 3)) * 60 + Number(m[8].slice(4))) };
}
const BOOL = { true: true, yes: true, 1: true, on: true, false: false, no: false, 0: false, off: false };

// is `got` an acceptable rendering of ExifTool's `raw`? returns a complaint or undefined
function verify(M, name, raw, got, o) {
  if (raw === null || (typeof raw === "string" && NULLISH.has(raw.trim()))) return got === undefined || got === raw ? undefined : `meaningless value became ${obs(got)}`;
  if (got === undefined) return `value ${show(raw)} was lost`;
  if (Array.isArray(raw)) {
    if (!Array.isArray(got) || got.length !== raw.length) return `list became ${obs(got)}`;
    for (let i = 0; i < raw.length; i++) { const c = verify(M, name, raw[i], got[i], o); if (c) return `[${i}]: ${c}`; }
    return;
  }
  if (typeof raw === "object") {
    if (got === null || typeof got !== "object" || Array.isArray(got) || Object.getPrototypeOf(got) !== Object.prototype) return `structure became ${obs(got)} or has a foreign prototype`;
    for (const k of Object.keys(raw)) { const c = verify(M, name + "." + k, raw[k], Object.getOwnPropertyDescriptor(got, k)?.value, o); if (c) return `.${k}: ${c}`; }
    for (const k of Object.keys(got)) if (!Object.hasOwn(raw, k)) return `field ${k} was invented`;
    return;
  }
  if (typeof raw !== "string") return Object.is(got, raw) || (name === "ExifToolVersion" && Number(got) === raw) ? undefined : `${show(raw)} became ${obs(got)}`;
  if (got === raw) return;
  if (typeof got === "boolean") return /Valid$/.test(name) && BOOL[raw.trim().toLowerCase()] === got ? undefined : `${show(raw)} became ${got}`;
  if (got === null || typeof got !== "object") return `${show(raw)} became ${obs(got)}`;
  if (got.rawValue !== raw && String(got.rawValue) !== raw.trim()) return `${show(raw)} became ${obs(got)} without its text`;
  if (got instanceof M.BinaryField) return /binary\D*\d+ bytes/i.test(raw) && got.bytes === Number(/\d+(?= bytes)/.exec(raw)[0]) ? undefined : `${show(raw)} became ${obs(got)}`;
  const f = fields(raw);
  if (got instanceof M.ExifDate) {
    if (f) { if (f.h !== undefined) return `${show(raw)} lost its time`; return got.year === f.y && got.month === f.mo && got.day === f.d ? undefined : `${show(raw)} became ${obs(got)}`; }
    if (/^\d{1,4}$/.test(raw)) return got.year === Number(raw) ? undefined : `year ${raw} became ${obs(got)}`;
    return;
  }
  if (got instanceof M.ExifTime) return f ? (f.y === undefined && got.hour === (f.h === 24 && !f.mi && !f.s ? 0 : f.h) && got.minute === f.mi && got.second === (f.s ?? 0) && (got.millisecond ?? 0) === (f.ms ?? 0) ? undefined : `${show(raw)} became ${obs(got)}`) : undefined;
  if (got instanceof M.ExifDateTime) {
    if (!f) return;
    const utc = Date.UTC(f.y, f.mo - 1, f.d, f.h, f.mi, f.s ?? 0, f.ms ?? 0);
    const shown = Date.UTC(got.year, got.month - 1, got.day, got.hour, got.minute, got.second, got.millisecond ?? 0);
    if (new Date(utc).getUTCDate() !== f.d || f.h > 23 || f.mi > 59) return `impossible ${show(raw)} became ${obs(got)}`;
    if (f.off !== undefined) return got.toMillis() === utc - f.off * 60000 ? undefined : `${show(raw)} became ${obs(got)}`;
    if (shown === utc) return;
    // zoneless times of videos are UTC, shown in the inferred zone
    return o.video && got.zone && got.toMillis() === utc ? undefined : `${show(raw)} became ${obs(got)}`;
  }
  return `${show(raw)} became ${obs(got)}`;
}
const DERIVED = new Set(["SourceFile", "errors", "warnings", "zone", "tz", "tzSource"]);
function judge(M, raw, got, o) {
  if (got === null || typeof got !== "object") return "read returned " + obs(got);
  if (Object.getPrototypeOf(got) !== Object.prototype) return "result has a foreign prototype";
  for (const k of Object.keys(raw)) {
    if (k === "SourceFile") continue;
    const name = o.group ? k.split(":")[1] ?? k : k;
    const c = verify(M, name, raw[k], Object.getOwnPropertyDescriptor(got, k)?.value, o);
    if (c) return `${k}: ${c}`;
  }
  for (const k of Object.keys(got)) if (!Object.hasOwn(raw, k) && !DERIVED.has(k)) return `tag ${k} (${obs(got[k])}) was never reported`;
  if (got.SourceFile !== path.normalize(raw.SourceFile ?? o.file ?? F)) return "SourceFile " + show(got.SourceFile);
  if (!Array.isArray(got.errors) || got.errors.length) return "errors " + show(got.errors);
  return;
}
function rawJudge(raw, got) {
  for (const k of Object.keys(raw)) if (obs(Object.getOwnPropertyDescriptor(got, k)?.value) !== obs(raw[k])) return `${k}: ${show(raw[k])} became ${obs(got[k])}`;
  for (const k of Object.keys(got)) if (!Object.hasOwn(raw, k) && k !== "errors" && k !== "warnings") return `tag ${k} was never reported`;
}

module.exports = {
  id: "C10", level: "model_checking",
  rule: "distinct = distinct (reported tags, options) pairs, or distinct malformed/foreign answers",
  bounds: (t) => ({ names: NAMES.length, values: LEAF.length, shapes: SHAPES.length, nesting: 3, tagsPerAnswer: t === "quick" ? 2 : 3, contexts: CONTEXTS.length, truncations: "every prefix", pathTokens: t === "quick" ? 2 : 3 }),
  assumptions: ["ExifTool's JSON has unique keys", "the names of the library's own result fields (errors, warnings, zone, tz, tzSource, invalidUtf8Bytes) are not tag names"],
  shards(tier) {
    const s = [{ part: "bad" }, { part: "real" }];
    const of = 6;
    for (let i = 0; i < of; i++) s.push({ part: "one", i, of });
    for (let i = 0; i < 3; i++) s.push({ part: "pair", i, of: 3 }, { part: "source", i, of: 3 });
    return s;
  },
  async run(shard, ctx) {
    if (shard.part === "real") return real(ctx);
    const M = load(ctx.dist);
    let cur = "";
    const bench = new Bench(M, () => ({ out: cur }), { maxProcs: 1 });
    const report = (key, msg) => ctx.violate(key, msg, { cur });
    const send = async (raw, call) => { cur = typeof raw === "string" ? raw : JSON.stringify([raw]); return bench.one(() => call(bench.et)); };
    try {
      if (shard.part === "one" || shard.part === "pair") {
        let n = 0;
        for (const [label, extra, o, group, video] of CONTEXTS) {
          const one = async (tags, sig) => {
            if (n++ % shard.of !== shard.i) return;
            const raw = { SourceFile: F, ...extra };
            for (const [k, v] of tags) if (!Object.hasOwn(raw, k)) set(raw, group ? "XMP:" + k : k, v);
            if (group) for (const k of Object.keys(extra)) { raw["EXIF:" + k] = raw[k]; delete raw[k]; }
            const key = `${label}:${sig}`;
            const r = await send(raw, (et) => et.read(F, o));
            ctx.eval(key); ctx.add("transitions");
            if (r.status !== "fulfilled") return report(key, "read " + r.status + ": " + (r.reason && r.reason.stack));
            const c = judge(M, JSON.parse(cur)[0], r.value, { group, video });
            if (c) report(key, c);
            ctx.outcome(tags.map(([k]) => obs(r.value[group ? "XMP:" + k : k])?.replace(/[{("].*/s, "")).join());
            if (label === "plain") {
              const rr = await send(raw, (et) => et.readRaw(F));
              ctx.eval("raw:" + key); ctx.add("transitions");
              const cc = rr.status !== "fulfilled" ? rr.status : rawJudge(JSON.parse(cur)[0], rr.value);
              if (cc) report("raw:" + key, "readRaw: " + cc);
            }
          };
          if (shard.part === "one") {
            const names = label === "plain" || !ctx.quick ? NAMES : NAMES.filter((_, i) => i < 40);
            for (const k of names) for (const v of LEAF) await one([[k, v]], show([k, v]));
            for (const k of names) for (const [i, sh] of SHAPES.entries()) for (const v of ctx.quick ? FEW : LEAF) await one([[k, sh(v)]], show([k, i, v]));
          } else {
            const V = ["v", "2023:01:15 11:30:00", 5];
            for (const a of NAMES) for (const b of NAMES) if (a !== b) for (const v of V) await one([[a, v === "v" ? "v" + a : v], [b, "w" + b]], show([a, v, b]));
            if (!ctx.quick) for (const a of NAMES) for (const b of NAMES) for (const c of ["Title", "CreateDate", "GPSAltitude", "toString", "OffsetTimeOriginal", "Valid"]) if (a !== b && b !== c && a !== c) await one([[a, "2023:01:15 11:30:00"], [b, "w"], [c, "-05:00"]], show([a, b, c]));
          }
        }
      }
      if (shard.part === "bad") {
        const full = JSON.stringify([{ SourceFile: F, Title: "a\"b", ExifToolVersion: 13.59, L: [1, { a: null }] }], null, 2) + "\n";
        const bads = ["", " ", "\n", "null", "[]", "[null]", "{}", "x", "1", "[", "]", "{", "[{]", "[{}", "undefined", "[undefined]", "<xml/>", "Error: File not found", full + "x", "x" + full, full + full, full.replace("null", "nul"), full.replace("13.59", "13.59.1")];
        // the same answer as ExifTool lays it out, and without any white space
        const compact = JSON.stringify(JSON.parse(full)), laid = "[{\n  " + compact.slice(2, -2) + "\n}]\n";
        for (const t of [compact, laid]) { bads.push(t + "x", "x" + t, t + t, t + "\n" + t, t + "]", t + "}]", t + "{}", t + ",", "[" + t, t + "[", t + "Error: x", t.trimEnd().slice(0, -1) + ",", t.trimEnd().slice(0, -1) + ",{]"); for (let i = 1; i < t.trimEnd().length; i++) bads.push(t.slice(0, i), t.slice(0, i) + "}]"); }
        for (let i = 1; i < full.trimEnd().length; i++) bads.push(full.slice(0, i));
        for (let i = 1; i < full.trimEnd().length; i++) bads.push(full.slice(i).trim() === "" ? "" : full.slice(i));
        const parses = (b) => { try { const v = JSON.parse(b.trim()); return Array.isArray(v) && v[0] !== null && typeof v[0] === "object"; } catch { return false; } };
        for (const b of new Set(bads)) if (!parses(b)) for (const [name, call] of [["read", (et) => et.read(F)], ["readG", (et) => et.read(F, { readArgs: ["-G"] })], ["filter", (et) => et.read(F, { readArgs: ["-api", "Filter=s/a/b/"] })], ["raw", (et) => et.readRaw(F)], ["rawFilter", (et) => et.readRaw(F, { readArgs: ["-api", "Filter=s/a/b/"] })]]) {
          const r = await send(b, call);
          const key = `bad:${name}:${show(b)}`;
          ctx.eval(key); ctx.add("transitions"); ctx.outcome(r.status);
          if (r.status !== "rejected") report(key, `${name} ${r.status} with ${obs(r.value)}`);
          else if (!(r.reason instanceof Error)) report(key, "rejected with " + show(r.reason));
        }
      }
      if (shard.part === "source") {
        const toks = ["a", "A", "é", "e\u0301", " ", ".", "/", "../", "b.jpg"];
        const all = [...new Set([...words(toks, ctx.quick ? 2 : 3, 1)].map((w) => "/s/" + w))].filter((p) => !p.endsWith("/") && !p.endsWith(".."));
        for (const [i, want] of all.entries()) for (const said of all) {
          if (i % shard.of !== shard.i) continue;
          const same = path.normalize(want) === path.normalize(said);
          const r = await send({ SourceFile: said, Title: "t" }, (et) => et.read(want));
          const key = `source:${want}:${said}`;
          ctx.eval(key); ctx.add("transitions"); ctx.outcome(same + r.status);
          if (same && (r.status !== "fulfilled" || r.value.Title !== "t")) report(key, "rejected its own answer: " + (r.reason && r.reason.message));
          if (!same && r.status !== "rejected") report(key, `the answer for ${said} was given to the read of ${want}`);
        }
      }
      ctx.sample({ ...shard });
    } finally { bench.close(); }
  },
};
// label, other tags reported, call options, -G, video semantics
const Z = { OffsetTimeOriginal: "-08:00" };
const CONTEXTS = [
  ["plain", {}, {}, false, false],
  ["zoned", Z, {}, false, false],
  ["nobackfill", Z, { backfillTimezones: false }, false, false],
  ["video", { MIMEType: "video/mp4" }, {}, false, true],
  ["videoZoned", { MIMEType: "video/mp4", ...Z }, {}, false, true],
  ["group", {}, { readArgs: ["-G"] }, true, false],
  ["groupZoned", Z, { readArgs: ["-fast", "-G"] }, true, false],
  ["struct", {}, { struct: 1, numericTags: [] }, false, false],
];

// JSON and XMP files read through the library by the vendored exiftool
async function real(ctx) {
  if (!Real.available()) { ctx.add("realUnavailable"); return; }
  const M = load(ctx.dist);
  const R = new Real();
  const et = new M.ExifTool({ maxProcs: 1, taskRetries: 0, logger: () => ({ trace() {}, debug() {}, info() {}, warn() {}, error() {} }) });
  try {
    const body = mk("title", "t", "constructor", "c", "toString", "s", "x", mk("__proto__", "p", "constructor", 3, "null", "null", "n", "Null"), "__proto__", mk("q", 1), "CreateDate", "2023:01:15 11:30:00", "weird date", "2023:02:30", "list", [1, "a", mk("b", ["2023:01:15"])], "bin", "(Binary data 12 bytes, use -b option to extract)", "uni", "ü€😀");
    const vals = [body];
    for (const v of STRS.filter((x) => !x.includes("\u0000") && x.trim() === x)) vals.push(mk("Title", v, "DateTaken", v, "s", mk("When", v, "Valid", v)));
    let n = 0;
    for (const v of vals) for (const struct of [0, 1]) {
      const f = R.path(`j${n++}.json`);
      fs.writeFileSync(f, JSON.stringify(v));
      const direct = JSON.parse((await R.exec(["-charset", "filename=utf8", "-json", "-api", "struct=" + struct, "-all", "-fast", f])).out)[0];
      const r = await et.read(f, { struct, numericTags: [], readArgs: ["-fast"], useMWG: false, geolocation: false, keepUTCTime: false }).then((value) => ({ value }), (e) => ({ e }));
      const key = `real:${struct}:${show(v)}`;
      ctx.eval(key); ctx.add("transitions"); ctx.add("traces");
      if (r.e) { ctx.violate(key, "rejected: " + r.e); continue; }
      for (const k of ["FileAccessDate", "FileModifyDate", "FileInodeChangeDate"]) delete direct[k], delete r.value[k];
      const c = judge(M, direct, r.value, { file: f });
      if (c) ctx.violate(key, c);
    }
  } finally { await et.end().catch(() => {}); R.close(); }
}
