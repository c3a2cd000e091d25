"use strict";
// JSON round trips of every kind of library value, nested, and of plain look-alikes.
const { load } = require("../lib/load.js");
const { Bench, show } = require("../lib/harness.js");

const set = (o, k, v) => Object.defineProperty(o, k, { value: v, enumerable: true, writable: true, configurable: true });
const mk = (...kv) => { const o = {}; for (let i = 0; i < kv.length; i += 2) set(o, kv[i], kv[i + 1]); return o; };
const attempt = (f) => { try { return f(); } catch (e) { return "!" + e.message; } };
const HOSTS = ["UTC", "America/Los_Angeles", "Asia/Kolkata"];

// everything a user can observe of a value
function view(M, v) {
  if (v === undefined || v === null) return "nil"; // JSON has one absent value
  if (typeof v === "number") return "n" + v;
  if (typeof v !== "object") return JSON.stringify(v);
  if (v instanceof Uint8Array) return "bytes<" + Buffer.from(v).toString("hex") + ">";
  if (Array.isArray(v)) return "[" + v.map((x) => view(M, x)).join() + "]";
  const own = Object.keys(v).filter((k) => Object.getOwnPropertyDescriptor(v, k).value !== undefined).sort().map((k) => JSON.stringify(k) + ":" + view(M, Object.getOwnPropertyDescriptor(v, k).value)).join();
  if (v instanceof M.ExifDateTime) {
    const d = attempt(() => v.toDateTime());
    return `DT{${own}|${[v.hasZone, v.zone, v.millis, v.unsetMilliseconds, attempt(() => v.isValid), attempt(() => v.toISOString()), attempt(() => v.toISOString({ includeOffset: false })), attempt(() => v.toExifString()), String(v), attempt(() => v.toMillis()), attempt(() => v.toDate().getTime()), attempt(() => v.toEpochSeconds()), attempt(() => v.toEpochSeconds("UTC")), d.zoneName, d.offset, attempt(() => v.plus({ months: 1 })?.toExifString()), attempt(() => v.setZone("UTC+9")?.toExifString()), attempt(() => v.setZone("America/New_York")?.toISOString())].join()}}`;
  }
  if (v instanceof M.ExifTime) return `T{${own}|${[v.hasZone, v.zone, v.millis, String(v), v.toISOString(), v.toExifString()].join()}}`;
  if (v instanceof M.ExifDate) return `D{${own}|${[v.isPartial(), v.isYearOnly(), v.isYearMonth(), v.isFullDate(), String(v), v.toISOString(), v.toExifString(), attempt(() => v.toMillis()), attempt(() => v.toDate().getTime())].join()}}`;
  if (v instanceof M.BinaryField) return `B{${own}}`;
  return (Object.getPrototypeOf(v) === Object.prototype ? "{" : "FOREIGN" + v.constructor?.name + "{") + own + "}";
}

function values(M, quick) {
  const out = [], { ExifDateTime, ExifDate, ExifTime, BinaryField } = M;
  const add = (name, v) => { if (v !== undefined) out.push([name, v]); };
  const dates = ["2023:03:12 02:30:00", "2023:11:05 01:30:00", "2024:02:29 23:59:59", "1969:12:31 23:59:59", "0002:01:01 00:00:00", "9999:12:31 00:00:00"];
  const fr = quick ? ["", ".0", ".052"] : ["", ".0", ".5", ".052", ".999999"];
  const zs = ["", "Z", "+05:30", "-08:00", "+00:00", "+14:00", "-11:00", "+05:45", "-03:30", " EST"];
  const dzs = [undefined, "UTC", "UTC-8", "America/Los_Angeles", "Europe/London", "Australia/Lord_Howe", "GMT", "Etc/UTC"];
  for (const d of dates) for (const f of fr) for (const z of zs) for (const dz of z === "" ? dzs : [undefined, "UTC-8"]) {
    const t = d + f + z, v = ExifDateTime.from(t, dz);
    add(`dt ${t}|${dz}`, v);
    if (!v || f === ".0") continue;
    for (const nz of ["UTC", "UTC+5:30", "America/Los_Angeles"]) { add(`dt ${t}|${dz} setZone ${nz}`, v.setZone(nz)); add(`dt ${t}|${dz} setZone ${nz} stated`, v.setZone(nz, { inferredZone: false })); }
    add(`dt ${t}|${dz} plus`, v.plus({ minutes: 90 }));
  }
  for (const ms of [0, -1, 1, 1678613400000, 1699176600123, 253402300799999]) for (const zone of [undefined, "UTC", "America/Los_Angeles", "UTC+5:30"]) for (const rawValue of [undefined, "x"]) add(`ms ${ms} ${zone} ${rawValue}`, ExifDateTime.fromMillis(ms, { ...(zone && { zone }), ...(rawValue && { rawValue }) }));
  for (const t of ["Oct 13 2016 00:12:27", "Thu Oct 13 00:12:27 2016"]) for (const z of [undefined, "UTC-8"]) add(`dt ${t}|${z}`, ExifDateTime.from(t, z));
  for (const t of ["2023:01:02", "2023-01-02", "2024:02:29", "2023:01", "2023-12", "2023", 2023, "1", "9999", "Jan 2 2023", "2011:12:30", "1900:01:01", "0099:01:01"]) add(`d ${t}`, ExifDate.from(t));
  for (const h of ["00:00:00", "23:59:59", "12:30", "02:30:00"]) for (const f of h.length > 5 ? fr : [""]) for (const z of ["", "Z", "+05:30", "-08:00"]) for (const dz of z === "" ? [undefined, "UTC", "UTC-8"] : [undefined]) add(`t ${h}${f}${z}|${dz}`, ExifTime.fromEXIF(h + f + z, dz));
  // the original text is kept as it was
  for (const raw of ["x", " 2023:01:02 ", "\t2023", "2023:01\n", "", " ", "0", "null"]) {
    add(`d raw ${raw}`, new ExifDate(2023, 1, 2, raw)); add(`d y raw ${raw}`, new ExifDate(2023, undefined, undefined, raw)); add(`t raw ${raw}`, new ExifTime(1, 2, 3, 4, raw));
    add(`dt raw ${raw}`, new ExifDateTime(2023, 1, 2, 3, 4, 5, 6, -480, raw, "UTC-8", false)); add(`b raw ${raw}`, new BinaryField(5, raw));
  }
  for (const t of ["(Binary data 12345 bytes, use -b option to extract)", "Binary data 0 bytes", "Binary 7 bytes"]) add(`b ${t}`, BinaryField.fromRawValue(t));
  return out;
}
const NEST = [
  ["self", (v) => v], ["list", (v) => [v]], ["pair", (v) => [v, "x", v]], ["tag", (v) => ({ SourceFile: "/s/f.jpg", DateTimeOriginal: v })], ["struct", (v) => ({ History: [{ When: v, Action: "saved" }, { When: v }] })], ["deep", (v) => [[{ a: { b: [v] } }]]],
  ["proto", (v) => mk("__proto__", v, "constructor", v)], ["ctorKey", (v) => ({ ctor: v, _ctorX: v })], ["bytesKey", (v) => ({ a: v, invalidUtf8Bytes: { a: Uint8Array.from([1, 255]) } })], ["json", (v) => ({ toJSON: 1, json: v })],
];
// byte reports: every shape to depth 2 over these keys and leaves
const BYTES = [[0], [255], [99, 97, 102, 0xe9], [0, 255, 0], Array.from({ length: 256 }, (_, i) => i), Array.from({ length: 12 }, (_, i) => i)].map((b) => Uint8Array.from(b));
const BKEYS = ["Title", "0", "1", "10", "a.b", "__proto__", "constructor", "_ctor", "invalidUtf8Bytes", "length", "toJSON2"];
function* reports(depth) {
  yield* BYTES.slice(0, depth > 0 ? 4 : 6);
  if (depth === 0) return;
  const sub = [...reports(depth - 1)];
  for (const k of BKEYS) for (const s of sub) yield mk(k, s);
  for (const s of sub) { yield mk("0", s, "1", BYTES[1]); yield mk("a", BYTES[0], "b", s); yield mk("1", s, "0", BYTES[2]); }
}
// plain data: whatever its keys, unchanged
const PKEYS = ["_ctor", "ctor", "__proto__", "constructor", "toString", "invalidUtf8Bytes", "InvalidUtf8Bytes", "toJSON", "0", "year", "", "hasOwnProperty"];
const PLEAF = ["ExifDate2", "exifdatetime", "ExifDateTime ", " ExifTime", "toString", "valueOf", "__proto__", "constructor", "hasOwnProperty", "isPrototypeOf", "propertyIsEnumerable", "__defineGetter__", "toLocaleString", "Object", "", 5, 256, -1, 1.5, 0, null, true, false, "base64:AAAA"];
const LIB = new Set(["BinaryField", "ExifDateTime", "ExifDate", "ExifTime"]);
const byteish = (v) => v !== null && typeof v === "object" && !Array.isArray(v) && Object.keys(v).length > 0 && Object.keys(v).every((k, i) => k === String(i) && Number.isInteger(v[k]) && v[k] >= 0 && v[k] <= 255);
const hasByteish = (v) => v !== null && typeof v === "object" && !Array.isArray(v) && (byteish(v) || Object.keys(v).some((k) => hasByteish(Object.getOwnPropertyDescriptor(v, k).value)));
const claims = (v) => v !== null && typeof v === "object" && (Array.isArray(v) ? v.some(claims) : Object.keys(v).some((k) => { const x = Object.getOwnPropertyDescriptor(v, k).value; return (k === "_ctor" && LIB.has(x)) || (k === "invalidUtf8Bytes" && hasByteish(x)) || claims(x); }));
function* plain(depth, quick) {
  yield* PLEAF;
  if (depth === 0) return;
  for (const s of plain(depth - 1, quick)) {
    if (depth > 1 && s !== null && typeof s === "object") yield s;
    yield [s];
    for (const k of PKEYS) { yield mk(k, s); yield mk(k, s, "year", 2023, "month", 1, "day", 2); if (depth === 1) for (const l of ["ExifDate2", "toString", "valueOf", "__proto__", 5]) { yield mk("_ctor", l, k, s); yield mk(k, [s], "0", s, "1", 300); } }
    if (depth === 1) { yield {}; yield []; yield { invalidUtf8Bytes: {} }; yield { invalidUtf8Bytes: { a: {} } }; yield { invalidUtf8Bytes: [] }; yield { invalidUtf8Bytes: { a: [] , b: s } }; yield { invalidUtf8Bytes: { a: { 0: s } } }; yield { invalidUtf8Bytes: { a: { "00": 1 } } }; yield { invalidUtf8Bytes: { a: { "1": 1, "2": 2 } } }; }
    yield [s, { _ctor: s }]; yield { a: { _ctor: s, toString: s } };
  }
}

module.exports = {
  id: "C13", level: "model_checking",
  rule: "distinct = distinct (host zone, value, nesting) or plain JSON texts round-tripped",
  bounds: (t) => ({ hostZones: HOSTS, nestings: NEST.length, reportDepth: 3, plainDepth: t === "quick" ? 2 : 3, keys: PKEYS, wholeReads: "tag sets of reads over 24 combinations of tags and options" }),
  assumptions: ["plain data that claims to be a library type by its _ctor, or a byte report under the report's key, cannot be told from one"],
  shards() {
    const s = [];
    for (const TZ of HOSTS) { s.push({ part: "values", TZ, env: { TZ } }); s.push({ part: "read", TZ, env: { TZ } }); }
    s.push({ part: "bytes" }); for (let i = 0; i < 8; i++) s.push({ part: "plain", i, of: 8 });
    return s;
  },
  async run(shard, ctx) {
    const M = load(ctx.dist);
    const trip = (key, v, spaces = true) => {
      ctx.eval(`${shard.TZ}|${key}`); ctx.add("transitions"); ctx.add("traces");
      const before = view(M, v);
      for (const space of spaces ? [undefined, 2] : [undefined]) {
        const text = JSON.stringify(v, null, space);
        let r;
        try { r = M.parseJSON(text); } catch (e) { ctx.violate(key, `reviving ${text.slice(0, 300)} failed: ${e.message}`, { text }); return; }
        const after = view(M, r);
        if (after !== before) { ctx.violate(key, `${text.slice(0, 300)} came back as ${after.slice(0, 400)}, was ${before.slice(0, 400)}`, { text }); return; }
        if (JSON.stringify(r, null, space) !== text) { ctx.violate(key, `${text.slice(0, 300)} serialises differently after reviving`, { text }); return; }
      }
      if (view(M, v) !== before) ctx.violate(key, "serialising changed the value", {});
      return before;
    };
    if (shard.part === "values") {
      for (const [n, v] of values(M, ctx.quick)) for (const [nn, f] of NEST) trip(`${n} in ${nn}`, f(v), nn === "self");
      // every class revives through its own fromJSON too
      for (const [n, v] of values(M, true)) { ctx.eval(`from ${n}`); if (view(M, v.constructor.fromJSON(JSON.parse(JSON.stringify(v)))) !== view(M, v)) ctx.violate("fromJSON " + n, `fromJSON of ${JSON.stringify(v)} differs`, {}); }
    } else if (shard.part === "bytes") {
      for (const r of reports(ctx.quick ? 2 : 3)) if (!(r instanceof Uint8Array)) { const k = "bytes " + view(M, r); trip(k, { SourceFile: "/s", Title: "\ufffd", invalidUtf8Bytes: r }); trip(k + " nested", [{ invalidUtf8Bytes: r }], false); }
    } else if (shard.part === "plain") {
      let i = 0;
      for (const v of plain(ctx.quick ? 2 : 3, ctx.quick)) { if (i++ % shard.of !== shard.i || claims(v)) continue; trip("plain " + JSON.stringify(v), v, false); trip("plain tag " + JSON.stringify(v), { Tag: v }, false); }
    } else {
      // whole tag sets as returned by reads
      const MARK = "__etvInvalidUtf8V1", bad = { [MARK]: { replacement: "s:caf\ufffd", rawBase64: "b64:" + Buffer.from([99, 97, 102, 0xe9]).toString("base64") } };
      let cur;
      const bench = new Bench(M, () => ({ out: JSON.stringify([{ SourceFile: "/s/f.jpg", ...cur }]) }), { maxProcs: 1 });
      const base = { FileName: "f.jpg", DateTimeOriginal: "2023:03:12 02:30:00", SubSecCreateDate: "2023:11:05 01:30:00.25", ModifyDate: "2023:01:02 03:04:05-08:00", GPSDateTime: "2023:03:12 10:30:00Z", DateCreated: "2023:01:02", TimeCreated: "03:04:05", ThumbnailImage: "(Binary data 5 bytes, use -b option to extract)", Title: bad, Keywords: ["a", bad, "2023:01:01"], Hist: [{ When: "2023:01:02 03:04:05", Note: bad }], Rating: 3, JFIFValid: "yes", Warning: "minor", Empty: "", When: "2023:01" };
      const zones = [{}, { OffsetTimeOriginal: "-08:00" }, { GPSLatitude: 37.5, GPSLongitude: -122.5 }, { GPSLatitude: "51 deg 30' 0\" N", GPSLongitude: "0 deg 7' 0\" W", GPSLatitudeRef: "North", GPSLongitudeRef: "West" }, { TimeZone: "+05:45" }, { OffsetTimeOriginal: "Z" }];
      for (const z of zones) for (const MIMEType of [undefined, "video/mp4"]) for (const backfillTimezones of [true, false]) for (const extra of [{}, { numericTags: [] , readArgs: ["-fast", "-G"] }]) {
        cur = { ...base, ...z, ...(MIMEType && { MIMEType }) };
        if (extra.readArgs) cur = Object.fromEntries(Object.entries(cur).map(([k, v]) => ["EXIF:" + k, v]));
        const r = await bench.one(() => bench.et.read("/s/f.jpg", { backfillTimezones, ...extra }));
        const key = `read ${show(z)} ${MIMEType} ${backfillTimezones} ${show(extra)}`;
        if (r.status !== "fulfilled") { ctx.violate(key, "read failed: " + r.reason, {}); continue; }
        trip(key, r.value);
        ctx.sample({ key, revivedAs: view(M, r.value).slice(0, 300) });
      }
      bench.close();
    }
  },
};
