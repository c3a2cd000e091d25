"use strict";
// Zone inference of whole reads against the documented precedence, over the product of source states.
const { load } = require("../lib/load.js");
const { world } = require("../lib/world.js");
const { Bench, product, show, chunks } = require("../lib/harness.js");
const { obs } = require("../lib/obs.js");
const cal = require("../lib/cal.js");

const F = "/s/f.jpg";
const fixed = { UTC: 0 };
for (const h of [-11, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]) fixed[`UTC${h < 0 ? h : "+" + h}`] = h * 60;
const SUPPORTED = [...Object.values(fixed), -570, -510, -210, -150, 210, 270, 330, 345, 390, 510, 525, 570, 585, 630, 765, 825].sort((a, b) => a - b);
const zname = (m) => (m === 0 ? "UTC" : `UTC${m < 0 ? "-" : "+"}${Math.floor(Math.abs(m) / 60)}${m % 60 ? ":" + String(Math.abs(m) % 60).padStart(2, "0") : ""}`);
const iso = (m) => `${m < 0 ? "-" : "+"}${String(Math.floor(Math.abs(m) / 60)).padStart(2, "0")}:${String(Math.abs(m) % 60).padStart(2, "0")}`;
// offset of a zone name at a local time (undefined: not a usable zone)
function offsetOf(zone, f) {
  const m = /^UTC(?:([+-])(\d{1,2})(?::(\d\d))?)?$/.exec(zone);
  if (m) { const o = m[1] ? (m[1] === "-" ? -1 : 1) * (Number(m[2]) * 60 + Number(m[3] ?? 0)) : 0; return SUPPORTED.includes(o) ? o : undefined; }
  try { return cal.offsetsAt(zone, f)[0]; } catch { return undefined; }
}
const LOCAL = { y: 2023, mo: 6, d: 15, h: 9, mi: 0, s: 0 }, L = "2023:06:15 09:00:00";
// explicit offset tags, in precedence order; [value, zone it states]
const OFF = {
  TimeZone: [[undefined], ["+02:00", "UTC+2"], ["bogus"], ["America/Lima", "America/Lima"], ["Europe/Z\u00fcrich"], ["Z", "UTC"], ["+00:00", "UTC"]],
  OffsetTimeOriginal: [[undefined], ["-08:00", "UTC-8"], ["Z", "UTC"], ["+15:00"]],
  OffsetTimeDigitized: [[undefined], ["+09:00", "UTC+9"], [""]],
  TimeZoneOffset: [[undefined], [-4, "UTC-4"], [[3, 4], "UTC+3"], ["x"], [99], ["+01:00", "UTC+1"], [[null, 5], "UTC+5"], [[]], [["+03:00"], "UTC+3"]],
};
const A5 = [[0, 0, 0, 0], [1, 1, 0, 1], [0, 1, 1, 1], [2, 3, 2, 3], [0, 0, 1, 2]];
const GEO = "Asia/Kolkata";
const GPS = {
  none: { tags: {} },
  ok: { tags: { GPSLatitude: 18.5, GPSLongitude: 73.5 }, geo: "ok" },
  unknown: { tags: { GPSLatitude: 18.5, GPSLongitude: 73.5 }, geo: "undef" },
  bogus: { tags: { GPSLatitude: 18.5, GPSLongitude: 73.5 }, geo: "bogus" },
  throws: { tags: { GPSLatitude: 18.5, GPSLongitude: 73.5 }, geo: "throw" },
  tag: { tags: { GPSLatitude: 18.5, GPSLongitude: 73.5, GeolocationTimeZone: "Asia/Tokyo" }, geo: "ok" },
  badtag: { tags: { GPSLatitude: 18.5, GPSLongitude: 73.5, GeolocationTimeZone: "Nowhere/City" }, geo: "ok" },
  zero: { tags: { GPSLatitude: 0, GPSLongitude: 0, GeolocationTimeZone: "Africa/Accra" }, geo: "ok", bad: true },
  range: { tags: { GPSLatitude: 95, GPSLongitude: 10, GeolocationTimeZone: "Africa/Accra" }, geo: "ok", bad: true },
  half: { tags: { GPSLatitude: 18.5, GeolocationTimeZone: "Asia/Tokyo" }, geo: "ok" },
};
const DS = {
  none: {}, plain: { DateTimeOriginal: L }, zoned: { DateTimeOriginal: L + "+04:00" }, utc: { DateTimeOriginal: L + "Z" },
  mixed: { DateTimeOriginal: L, CreateDate: L + "+04:00" }, utcZoned: { DateTimeOriginal: L + "+00:00", CreateDate: L + "-03:00" }, utcPlain: { DateTimeOriginal: L + "Z", CreateDate: L }, subsec: { SubSecDateTimeOriginal: L + ".25", DateTimeOriginal: L + "+04:00" },
};
const UTCS = {
  none: {}, gps: { GPSDateTime: "2023:06:15 14:00:00Z" }, dtu: { DateTimeUTC: "2023:06:15 15:10:00" }, stamps: { GPSDateStamp: "2023:06:15", GPSTimeStamp: "15:52:00" },
  gpsZoned: { GPSDateTime: "2023:06:15 14:00:00+03:00", DateTimeUTC: "2023:06:15 15:00:00" }, far: { GPSDateTime: "2023:06:17 14:00:00Z" }, half: { GPSDateStamp: "2023:06:15" }, gpsPlain: { GPSDateTime: "2023:06:15 14:00:00" }, sony: { SonyDateTime2: "2023:06:15 00:30:00" },
};
const TSS = { none: {}, zoned: { TimeStamp: "2023:06:15 05:00:00-07:00" }, plain: { TimeStamp: "2023:06:15 05:00:00" } };
const CAPTURED = ["SubSecDateTimeOriginal", "SubSecCreateDate", "DateTimeOriginal", "CreateDate", "MediaCreateDate", "CreationDate", "DateTimeCreated", "TimeCreated"];
const parse = (t) => { const m = /^(\d+):(\d+):(\d+) (\d+):(\d+):(\d+)(\.\d+)?(Z|[+-]\d\d:\d\d)?$/.exec(t); return m && { ms: cal.localMs({ y: +m[1], mo: +m[2], d: +m[3], h: +m[4], mi: +m[5], s: +m[6] }), off: m[8] === undefined ? undefined : m[8] === "Z" ? 0 : (m[8][0] === "-" ? -1 : 1) * (+m[8].slice(1, 3) * 60 + +m[8].slice(4)) }; };
function nearest(min) { let best; for (const o of SUPPORTED) { const d = Math.abs(o - min); if (d <= 30 && (best === undefined || d < Math.abs(best - min))) best = o; } return best; }

// documented precedence
function expected(c, tags) {
  const gps = () => {
    const g = GPS[c.gps];
    if (tags.GPSLatitude === undefined || tags.GPSLongitude === undefined || (g.bad && !(c.gps === "zero" && !c.ignoreZero))) return;
    if (tags.GeolocationTimeZone && tags.GeolocationTimeZone !== "Nowhere/City") return { zone: tags.GeolocationTimeZone, src: ["GeolocationTimeZone"] };
    if (g.geo === "ok") return { zone: GEO, src: ["GPSLatitude", "GPSLongitude"] };
  };
  if (c.prefer) { const g = gps(); if (g) return g; }
  for (const [i, k] of Object.keys(OFF).entries()) { const z = OFF[k][c.off[i]][1]; if (z) return { zone: z, src: [k] }; }
  const g = gps();
  if (g) return g;
  const dtags = c.dtags ?? CAPTURED;
  if (c.inferDS) for (const t of dtags) { const p = tags[t] && parse(tags[t]); if (p?.off) return { zone: zname(p.off), src: [t] }; }
  if (c.video && c.videoUTC) return { zone: "UTC", src: ["defaultVideosToUTC"] };
  let u;
  for (const [name, v] of [["GPSDateTime", tags.GPSDateTime], ["DateTimeUTC", tags.DateTimeUTC], ["GPSDateTimeStamp", tags.GPSDateStamp && tags.GPSTimeStamp ? tags.GPSDateStamp + " " + tags.GPSTimeStamp : undefined], ["SonyDateTime2", tags.SonyDateTime2]]) { const p = v && parse(v); if (p && !p.off) { u = { name, ms: p.ms }; break; } }
  if (u) for (const t of CAPTURED) { const p = tags[t] && parse(tags[t]); if (p && p.off === undefined) { const o = nearest((p.ms - u.ms) / 6e4); if (o !== undefined) return { zone: zname(o), src: [t, u.name] }; break; } }
  if (c.inferTS && tags.TimeStamp) {
    const ts = parse(tags.TimeStamp);
    for (const t of dtags) {
      const p = tags[t] && parse(tags[t]);
      if (!p) continue;
      if (p.off !== undefined) return { zone: zname(p.off), src: [t] };
      if (ts.off === undefined) continue;
      const o = nearest((p.ms - (ts.ms - ts.off * 6e4)) / 6e4);
      if (o !== undefined) return { zone: zname(o), src: [t, "TimeStamp"] };
    }
  }
}

function tagsOf(c) {
  const t = { MIMEType: c.mime ?? (c.video ? "video/mp4" : "image/jpeg"), ...GPS[c.gps].tags, ...DS[c.ds], ...UTCS[c.utc], ...TSS[c.ts], ModifyDate: "2023:06:16 10:20:30", FileModifyDate: "2023:06:17 10:20:30+02:00", ...c.more };
  for (const [i, k] of Object.keys(OFF).entries()) { const v = OFF[k][c.off[i]][0]; if (v !== undefined) t[k] = v; }
  return t;
}
const sig = (c) => JSON.stringify(c);

function judge(M, c, tags, r) {
  const want = expected(c, tags);
  if (r.status !== "fulfilled") return "read failed: " + (r.reason && r.reason.message);
  const v = r.value, get = (k) => v[c.group ? "EXIF:" + k : k] ?? v[k];
  if (v.zone !== want?.zone || v.tz !== want?.zone) return `zone ${v.zone}/${v.tz} (${v.tzSource}), expected ${want?.zone} from ${want?.src}`;
  if (!want ? v.tzSource !== undefined : !want.src.every((s) => String(v.tzSource).includes(s))) return `zone ${v.zone} is attributed to ${v.tzSource}, not ${want?.src}`;
  if (want && offsetOf(want.zone, LOCAL) === undefined) return `reported zone ${v.zone} is not usable`;
  const asUTC = c.video && c.videoUTC;
  for (const [k, raw] of Object.entries(tags)) {
    const p = typeof raw === "string" && !/^TimeStamp$|^GPSDateStamp|^GPSTimeStamp/.test(k) ? parse(raw) : undefined;
    if (!p || (/^GPS/.test(k) && GPS[c.gps].bad && !(c.gps === "zero" && !c.ignoreZero))) continue;
    const e = get(k);
    if (!(e instanceof M.ExifDateTime)) return `${k} is not a timestamp: ${obs(e)}`;
    const got = { y: e.year, mo: e.month, d: e.day, h: e.hour, mi: e.minute, s: e.second };
    let local = p.ms, off = p.off, inferred = false;
    if (off === undefined) {
      if (k.includes("UTC") || k.startsWith("GPS")) { off = 0; inferred = true; }
      else if (asUTC) { // taken as UTC, then shown in the reported zone when back-filling
        inferred = true; off = 0;
        if (c.backfill && want) { const o = want.zone.includes("/") ? cal.zoneOffset(want.zone, p.ms) : offsetOf(want.zone, LOCAL); local = p.ms + o * 6e4; off = o; if (e.zone !== want.zone) return `${k} is in zone ${e.zone}, expected ${want.zone}`; }
      } else if (c.backfill && want) { off = offsetOf(want.zone, got); inferred = true; if (e.zone !== want.zone) return `${k} is in zone ${e.zone}, expected ${want.zone}`; }
    }
    if (cal.localMs(got) !== local) return `${k} ${raw} became ${obs(e)}`;
    if (e.hasZone !== (off !== undefined) || e.tzoffsetMinutes !== off) return `${k} ${raw} has offset ${e.tzoffsetMinutes}, expected ${off}`;
    if (Boolean(e.inferredZone) !== inferred) return `${k} ${raw}: inferredZone is ${e.inferredZone}`;
    if (off !== undefined && e.toMillis() !== local - off * 6e4 + (e.millisecond ?? 0)) return `${k} ${raw} denotes instant ${e.toMillis()}`;
    if (e.rawValue !== raw) return `${k} lost its text`;
  }
  const gt = get("GPSTimeStamp");
  if (tags.GPSTimeStamp && !GPS[c.gps].bad && !(gt instanceof M.ExifTime && gt.hour === 15 && gt.minute === 52 && gt.zone === "UTC")) return `GPSTimeStamp became ${obs(gt)}`;
  const tm = get("TimeTag");
  if (tags.TimeTag && !(tm instanceof M.ExifTime && tm.hour === 3 && tm.hasZone === (asUTC || (c.backfill && !!want)))) return `TimeTag became ${obs(tm)}`;
  const zt = get("TimeTagZ");
  if (tags.TimeTagZ && !(zt instanceof M.ExifTime && zt.hour === 3 && zt.zone === "UTC+1")) return `TimeTagZ became ${obs(zt)}`;
}

const B = [false, true];
function* cases(part, quick) {
  const base = { off: A5[0], gps: "none", ds: "plain", utc: "none", ts: "none", video: false, prefer: false, inferDS: true, videoUTC: true, inferTS: false, backfill: true, ignoreZero: true };
  if (part === "main") yield* product({ off: A5, gps: Object.keys(GPS).filter((g) => !quick || !["bogus", "badtag", "half"].includes(g)), ds: Object.keys(DS).filter((d) => !quick || !["subsec", "utcPlain"].includes(d)), utc: quick ? ["none", "gps", "dtu", "gpsZoned"] : Object.keys(UTCS), ts: ["none", "zoned"], video: B, prefer: B, inferDS: B, videoUTC: B, inferTS: B, backfill: B, ignoreZero: [true] });
  if (part === "detail") {
    for (const c of product({ gps: Object.keys(GPS), ds: Object.keys(DS), utc: Object.keys(UTCS), ts: Object.keys(TSS), inferTS: B, video: B, ignoreZero: B })) yield { ...base, ...c };
    for (const c of product({ a: [0, 1, 2, 3, 4, 5, 6], b: [0, 1, 2, 3], c: [0, 1, 2], d: [0, 1, 2, 3, 4, 5, 6, 7, 8], gps: ["none", "ok"], prefer: B, video: B, ds: ["plain", "zoned"] })) yield { ...base, off: [c.a, c.b, c.c, c.d], gps: c.gps, prefer: c.prefer, video: c.video, ds: c.ds };
    // tags that are not among the documented sources have no say
    const noise = [{ OffsetTime: "+07:00" }, { TimeZoneCity: "Tokyo", DaylightSavings: "Yes" }, { OffsetTime: "Z", DaylightSavings: true }, { TimeZoneCode: 9, TimeZoneInfo: "+03:00" }, { OffsetSchema: "+05:00", GeolocationCity: "Lima" }];
    for (const more of noise) for (const c of product({ a: [0, 1, 2, 5], b: [0, 1, 2], c: [0, 1], d: [0, 1, 5], gps: ["none", "ok", "zero"], ds: ["plain", "zoned", "utc"], prefer: B, utc: ["none", "gps"] })) yield { ...base, off: [c.a, c.b, c.c, c.d], gps: c.gps, ds: c.ds, prefer: c.prefer, utc: c.utc, more };
    for (const group of B) for (const c of product({ off: A5, gps: ["none", "ok", "tag", "zero", "range"], ds: Object.keys(DS), utc: ["none", "gps", "stamps"], video: B, backfill: B })) yield { ...base, ...c, group, more: { TimeTag: "03:04:05", TimeTagZ: "03:04:05+01:00", UTCDateTag: "2023:06:14 01:02:03", DateUTCStart: "2023:06:13 01:02:03", LastGPSDate: "2023:06:12 01:02:03", UtcDateTag: "2023:06:11 01:02:03", WhenTag: "2023:06:10 01:02:03-05:00" } };
    for (const mime of ["image/x-video", "application/video", "video", "", "VIDEO", "video/quicktime", "video/x"]) for (const c of product({ off: A5.slice(0, 2), gps: ["none", "ok"], ds: ["plain", "zoned", "none"], utc: ["none", "gps"], videoUTC: B, backfill: B })) yield { ...base, ...c, mime, video: /^video[/]/.test(mime) };
    for (const dtags of [["CreateDate"], ["CreateDate", "DateTimeOriginal"], ["ModifyDate"], ["FileModifyDate"], []]) for (const c of product({ ds: Object.keys(DS), utc: ["none", "gps"], ts: Object.keys(TSS), inferDS: B, inferTS: B })) yield { ...base, ...c, dtags };
  }
}

module.exports = {
  id: "C14", level: "model_checking",
  rule: "distinct = distinct (tag combination, options) reads whose zone, source and every timestamp were compared with the precedence model",
  bounds: (t) => ({ offsetTags: 4, gpsStates: Object.keys(GPS), datestampStates: Object.keys(DS), utcSources: Object.keys(UTCS), timeStamp: Object.keys(TSS), mediaTypes: 2, options: "every combination of 6 inference options", utcDistance: "every minute within 16 h, and 1 s around each limit, for 5 UTC sources", daylightAdjustment: "every supported offset x 8 adjustments", hostZones: ["UTC", "America/Los_Angeles"] }),
  assumptions: ["the coordinate-to-zone lookup is a stand-in that answers, fails or throws, except on the grid of points (every 5 degrees, 2 in the thorough tier) read with the library's own lookup"],
  shards(tier) {
    const s = [];
    for (const TZ of ["UTC", "America/Los_Angeles"]) { s.push({ part: "detail", TZ, env: { TZ } }); s.push({ part: "adjust", TZ, env: { TZ } }, { part: "lag", TZ, env: { TZ } }); }
    s.push({ part: "world", i: 0, of: 1, TZ: "UTC", env: { TZ: "UTC" } });
    const n = tier === "quick" ? 6 : 16;
    for (let i = 0; i < n; i++) { const TZ = i % 2 ? "America/Los_Angeles" : "UTC"; s.push({ part: "main", i, of: n, TZ, env: { TZ } }); }
    return s;
  },
  async run(shard, ctx) {
    const M = load(ctx.dist);
    if (shard.part === "world") return world(M, ctx, [shard.i, shard.of]);
    let geo = "ok";
    let cur;
    const bench = new Bench(M, () => ({ out: JSON.stringify([{ SourceFile: F, ...cur }]) }), { maxProcs: 1, geoTz: (lat) => { if (geo === "throw") throw new Error("no lookup"); return geo === "ok" ? GEO : geo === "bogus" ? "Not/AZone" : undefined; } });
    const call = async (c, tags, extra = {}) => {
      geo = GPS[c.gps].geo ?? "ok";
      const raw = c.group ? Object.fromEntries(Object.entries(tags).map(([k, v]) => ["EXIF:" + k, v])) : tags;
      cur = raw;
      return bench.one(() => bench.et.read(F, { backfillTimezones: c.backfill, preferTimezoneInferenceFromGps: c.prefer, inferTimezoneFromDatestamps: c.inferDS, defaultVideosToUTC: c.videoUTC, inferTimezoneFromTimeStamp: c.inferTS, ignoreZeroZeroLatLon: c.ignoreZero, ...(c.dtags && { inferTimezoneFromDatestampTags: c.dtags }), ...(c.group && { readArgs: ["-fast", "-G"] }), ...extra }));
    };
    if (shard.part === "lag") {
      // every distance between a captured-at time and a UTC time, to the second near each limit
      const base = { off: [0, 0, 0, 0], gps: "none", ds: "plain", utc: "none", ts: "none", video: false, prefer: false, inferDS: true, videoUTC: true, inferTS: true, backfill: true, ignoreZero: true };
      const secs = new Set();
      for (let m = -16 * 60; m <= 16 * 60; m++) secs.add(m * 60);
      for (const o of SUPPORTED) for (const d of [-1801, -1800, -1799, -901, -899, -451, -449, -31, -1, 1, 31, 449, 451, 899, 901, 1799, 1800, 1801]) secs.add(o * 60 + d);
      const local = cal.localMs(LOCAL), txt = (ms) => { const f = cal.civil(ms), p = (x) => String(x).padStart(2, "0"); return `${f.y}:${p(f.mo)}:${p(f.d)} ${p(f.h)}:${p(f.mi)}:${p(f.s)}`; };
      const near = (min) => { let best = []; for (const o of SUPPORTED) { const d = Math.abs(o - min); if (d > 30) continue; const b = best.length ? Math.abs(best[0] - min) : 99; if (d < b) best = [o]; else if (d === b) best.push(o); } return best; };
      for (const s of secs) for (const src of ["GPSDateTime", "DateTimeUTC", "stamps", "SonyDateTime2", "TimeStamp"]) for (const at of src === "TimeStamp" ? ["DateTimeOriginal"] : ["DateTimeOriginal", "CreateDate"]) {
        const u = txt(local - s * 1000), tags = { MIMEType: "image/jpeg", [at]: L, ...(src === "stamps" ? { GPSDateStamp: u.slice(0, 10), GPSTimeStamp: u.slice(11) } : src === "TimeStamp" ? { TimeStamp: u + "+00:00" } : { [src]: u }) };
        const r = await call(base, tags), key = `${shard.TZ} lag ${src} ${at} ${s}`, v = r.value, want = near(s / 60);
        ctx.eval(key); ctx.add("transitions"); ctx.add("traces");
        if (r.status !== "fulfilled") { ctx.violate(key, "read failed: " + r.reason, { tags }); continue; }
        if (want.length ? !want.some((o) => v.zone === zname(o) && v.tz === zname(o) && v[at].tzoffsetMinutes === o) : v.zone !== undefined || v[at].hasZone) ctx.violate(key, `${key}: zone ${v.zone} from ${v.tzSource}, expected ${want.map(zname)}`, { tags });
        else if (v[at].hour !== 9 || v[at].minute !== 0) ctx.violate(key, `${key}: ${at} is ${obs(v[at])}`, { tags });
      }
      bench.close();
      return;
    }
    if (shard.part === "adjust") {
      const base = { off: [0, 0, 0, 0], gps: "none", ds: "plain", utc: "none", ts: "none", video: false, prefer: false, inferDS: true, videoUTC: true, inferTS: false, backfill: true, ignoreZero: true };
      const adj = [["none", {}, undefined], ["nikon-yes", { Make: "NIKON CORPORATION", DaylightSavings: "Yes" }, 60], ["nikon-true", { Make: "FS-Nikon", DaylightSavings: true }, 60], ["nikon-no", { Make: "Nikon", DaylightSavings: "No" }, undefined], ["canon", { Make: "Canon", DaylightSavings: "Yes" }, undefined], ["nikonish", { Make: "NotNikonish", DaylightSavings: "Yes" }, undefined], ...[0, 30, -60, 37, 1e4].map((m) => ["fn" + m, {}, m, () => m])];
      for (const off of SUPPORTED) for (const tag of Object.keys(OFF)) for (const [name, more, by, fn] of adj) {
        const tags = { MIMEType: "image/jpeg", DateTimeOriginal: L, [tag]: iso(off), ...more };
        const r = await call(base, tags, fn ? { adjustTimeZoneIfDaylightSavings: fn } : {});
        const key = `${shard.TZ} adjust ${tag} ${iso(off)} ${name}`;
        ctx.eval(key); ctx.add("transitions"); ctx.add("traces");
        const want = by !== undefined && SUPPORTED.includes(off + by) ? off + by : off;
        const v = r.value;
        if (r.status !== "fulfilled") { ctx.violate(key, "read failed: " + r.reason, { tags }); continue; }
        if (v.zone !== zname(want) || v.tz !== zname(want) || !String(v.tzSource).includes(tag)) ctx.violate(key, `${key}: zone ${v.zone}/${v.tz} from ${v.tzSource}, expected ${zname(want)}`, { tags });
        else if (!(v.DateTimeOriginal.tzoffsetMinutes === want && v.DateTimeOriginal.zone === zname(want) && v.DateTimeOriginal.hour === 9)) ctx.violate(key, `${key}: DateTimeOriginal is ${obs(v.DateTimeOriginal)}`, { tags });
      }
      bench.close();
      return;
    }
    let n = 0;
    for (const c of cases(shard.part, ctx.quick)) {
      if (shard.of && n++ % shard.of !== shard.i) continue;
      const tags = tagsOf(c), r = await call(c, tags), key = shard.TZ + " " + sig(c);
      ctx.eval(key); ctx.add("transitions"); ctx.add("traces");
      const why = judge(M, c, tags, r);
      if (why) ctx.violate(key, `${why} for tags ${JSON.stringify(tags)} (host ${shard.TZ})`, { tags, c });
      else ctx.outcome(r.value.tzSource ?? "none");
      if (n < 3) ctx.sample({ c, tags, zone: r.value?.zone, source: r.value?.tzSource });
    }
    bench.close();
  },
};
