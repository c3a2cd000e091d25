"use strict";
// Coordinates of whole reads against a model of what the reported texts denote.
const { load } = require("../lib/load.js");
const { world } = require("../lib/world.js");
const { Bench, product, show } = require("../lib/harness.js");

const F = "/s/f.jpg", ZONE = "Asia/Kolkata";
const H = { lat: ["N", "S"], lon: ["E", "W"] }, MAX = { lat: 90, lon: 180 };
// exact micro-degree truth of a degree/minute/second triple
const deg = (d, m = 0, s = 0) => d + m / 60 + s / 3600;
// every supported spelling of one signed point on one axis: [raw, signed truth, how]
function spellings(axis, d, m, s, neg) {
  const v = (neg ? -1 : 1) * deg(d, m, s), [p, n] = H[axis], h = neg ? n : p, out = [];
  const dec = deg(d, m, s), decS = String(Math.round(dec * 1e6) / 1e6);
  out.push([v, v, "number"], [(neg ? "-" : "") + decS, v, "decimal text"], [` ${neg ? "-" : ""}${decS} `, v, "padded decimal"]);
  const signs = [["", h, "hemisphere"], ["", h.toLowerCase(), "lower hemisphere"], [neg ? "-" : "", "", "signed"], [neg ? "-" : "", h, "signed and hemisphere"]];
  for (const [sg, hh, how] of signs) for (const [D, M, S] of [[" deg ", "' ", '"'], ["\u00b0 ", "\u2032 ", "\u2033"], ["\u00b0", "'", '"'], ["DEG ", "' ", '"']]) {
    const sfx = hh ? " " + hh : "";
    out.push([`${sg}${d}${D}${m}${M}${s}${S}${sfx}`, v, "dms " + how]);
    out.push([`${sg}${d}${D}${m}${M}${s.toFixed(2)}${S}${hh}`, (neg ? -1 : 1) * deg(d, m, Number(s.toFixed(2))), "dms2 " + how]);
    const mm = Math.round((m + s / 60) * 1e5) / 1e5;
    if (mm < 60) out.push([`${sg}${d}${D}${mm}${M.trim()}${sfx}`, (neg ? -1 : 1) * deg(d, mm), "dm " + how]);
    out.push([`${sg}${decS}${D.trimEnd()}${sfx}`, v, "d " + how]);
  }
  return out;
}
const JUNK = ["abc", "12 abc", "\u00b0 N", "40\u00b0 60' N", "40\u00b0 30' 60\" N", "--5", "N 40", "40\u00b0 26' 46\" N junk", "1.2.3", "40,5", "unknown", "40\u00b0 -5' N", "200\u00b0 10' 0\" E", "-200\u00b0", "40\u00b0 60' 10\" N", "40\u00b0 60.5' N", "\u00b0 30' N", "\u00b0 30' 5\" N", "-\u00b0 5' N", "40\u00b0 ' N", "-", ".", "-.", "40\u00b0 N 5\u00b0 E", "40\u00b0 NE", "1e1", "0x10", "Infinity", "NaN", "\u0664\u0660", "40\u00b0 30\u00b0 N"];
const POINTS = {
  lat: [[0, 0, 0], [0, 0, 0.0036], [0, 0, 0.144], [0, 0, 0.36], [0, 30, 0], [12, 34, 56.78], [33, 55, 29.5], [45, 0, 0], [59, 59, 59.99], [89, 59, 59.9], [90, 0, 0]],
  lon: [[0, 0, 0], [0, 0, 0.0036], [0, 0, 0.144], [0, 0, 0.36], [0, 30, 0], [12, 34, 56.78], [79, 58, 56], [90, 30, 0], [122, 25, 9.85], [179, 59, 59.9], [180, 0, 0]],
};
const OUT = { lat: [90.000002, -90.5, 91, -180, 1e10], lon: [180.000002, -180.5, 181, -360, 1e10] };
const REFS = { lat: [undefined, "N", "S", "North", "south", " s ", "n", "X", "E", ""], lon: [undefined, "E", "W", "East", "west", " w ", "e", "X", "N", ""] };
const refSign = (axis, ref) => { const r = typeof ref === "string" ? ref.trim().toUpperCase()[0] : undefined; return r === H[axis][1] ? -1 : r === H[axis][0] ? 1 : 0; };

// c: {lat:[raw,v], lon:[raw,v], pos:[raw,latv,lonv]|undefined, geo:[raw,lat,lon], latRef, lonRef, ignoreZero}
function expected(c) {
  let lat = c.lat?.[1], lon = c.lon?.[1];
  if (lat === undefined || lon === undefined) { lat ??= c.pos?.[1]; lon ??= c.pos?.[2]; }
  if (lat === undefined || lon === undefined) return { kind: "none" };
  if (c.ignoreZero && lat === 0 && lon === 0) return { kind: "dropped" };
  if (Math.abs(lat) > 90 || Math.abs(lon) > 180) return { kind: "dropped" };
  const one = (axis, v, ref, g) => {
    if (refSign(axis, ref) < 0) v = -Math.abs(v);
    if (g !== undefined && Math.abs(Math.abs(g) - Math.abs(v)) < 1 && Math.abs(g - v) >= 1) v = -v; // wrong hemisphere
    return v;
  };
  return { kind: "ok", lat: one("lat", lat, c.latRef, c.geo?.[1]), lon: one("lon", lon, c.lonRef, c.geo?.[2]) };
}
const ANY = /^(?:\w+:)?(?:GPS(?:Latitude|Longitude|LatitudeRef|LongitudeRef|Position)|Geolocation\w+)$/;
function judge(c, r, looked) {
  const want = expected(c);
  if (r.status !== "fulfilled") return "the read failed: " + (r.reason && r.reason.message);
  const v = r.value, warned = Array.isArray(v.warnings) && v.warnings.length > 0;
  if (Array.isArray(v.errors) && v.errors.length) return "errors reported: " + v.errors;
  const bad = (x) => x !== undefined && x[0] !== undefined && x[1] === undefined && String(x[0]).trim() !== "";
  if (want.kind === "dropped") {
    const left = Object.keys(v).filter((k) => ANY.test(k));
    if (left.length) return `${left} returned although the coordinates are to be dropped`;
    if (v.tz !== undefined || looked.length) return `zone ${v.tz} (${v.tzSource}) derived from dropped coordinates`;
    if (!warned) return "coordinates dropped without a warning";
    return;
  }
  const unread = [bad(c.lat), bad(c.lon), bad(c.pos) && (c.lat?.[1] === undefined || c.lon?.[1] === undefined), bad(c.geo) && want.kind === "ok"].filter(Boolean).length;
  if (unread > (warned ? v.warnings.length : 0)) return `${unread} unreadable coordinates but warnings ${show(v.warnings)}`;
  if (want.kind === "none") {
    for (const [k, x] of [["GPSLatitude", c.lat], ["GPSLongitude", c.lon]]) for (const kk of Object.keys(v).filter((n) => n === k || n.endsWith(":" + k))) if (typeof v[kk] === "number" && !(x && typeof x[0] === "number" && x[0] === v[kk]) && !(x && x[1] !== undefined)) return `${kk} ${v[kk]} from ${show(x)}`;
    if (v.tz !== undefined || looked.length) return `zone ${v.tz} without coordinates`;
    return;
  }
  for (const [k, axis] of [["GPSLatitude", "lat"], ["GPSLongitude", "lon"]]) {
    const x = v[k];
    if (typeof x !== "number" || !(Math.abs(x - want[axis]) <= 0.55e-6)) return `${k} is ${show(x)}, expected ${want[axis]}`;
    const ref = v[k + "Ref"];
    if (ref !== H[axis][0] && ref !== H[axis][1]) return `${k}Ref is ${show(ref)}`;
    if (Math.abs(want[axis]) >= 1e-6 && ref !== H[axis][want[axis] < 0 ? 1 : 0]) return `${k} ${x} with ${k}Ref ${ref}`;
    for (const kk of Object.keys(v)) { if (kk.endsWith(":" + k) && v[kk] !== x) return `${kk} is ${show(v[kk])} but ${k} is ${x}`; if (kk.endsWith(":" + k + "Ref") && v[kk] !== ref) return `${kk} is ${show(v[kk])} but ${k}Ref is ${ref}`; }
  }
  if (looked.some(([a, b]) => a !== v.GPSLatitude || b !== v.GPSLongitude)) return `the zone of ${show(looked)} was looked up`;
  if (v.tz !== ZONE || looked.length === 0) return `zone is ${v.tz} (${v.tzSource}), expected the location's`;
}
function tagsOf(c) {
  const t = {};
  const put = (k, x) => { if (x !== undefined) t[(c.group ?? "") + k] = x; };
  put("GPSLatitude", c.lat?.[0]); put("GPSLatitudeRef", c.latRef); put("GPSLongitude", c.lon?.[0]); put("GPSLongitudeRef", c.lonRef);
  put("GPSPosition", c.pos?.[0]); put("GeolocationPosition", c.geo?.[0]);
  if (c.geo) put("GeolocationCity", "Somewhere");
  return c.reverse ? Object.fromEntries(Object.entries(t).reverse()) : t;
}
const B = [false, true];
const num = (v) => [v, v];
function* cases(part, quick) {
  const R = quick ? 6 : 10;
  if (part === "lat" || part === "lon") {
    const other = part === "lat" ? "lon" : "lat";
    for (const [d, m, s] of POINTS[part]) for (const neg of B) for (const sp of spellings(part, d, m, s, neg)) for (const ref of REFS[part]) for (const o of quick ? [num(0), num(-10.25)] : [num(0), num(10.25), num(-10.25), ["-0.5", -0.5]]) for (const ignoreZero of B) yield { [part]: sp, [other]: o, [part + "Ref"]: ref, ignoreZero, group: ref === "N" || ref === "W" ? "EXIF:" : undefined };
    for (const v of OUT[part]) for (const raw of [v, String(v)]) for (const ref of REFS[part]) for (const o of [num(0), num(20), num(-45.5)]) for (const group of [undefined, "XMP:"]) for (const pos of [undefined, ["1.5 2.5", 1.5, 2.5]]) yield { [part]: [raw, v], [other]: o, [part + "Ref"]: ref, ignoreZero: true, group, pos, geo: ["1, 2", 1, 2] };
    for (const raw of JUNK) for (const ref of REFS[part]) for (const o of [undefined, num(20)]) for (const pos of [undefined, ["1.5 2.5", 1.5, 2.5], ["junk"], ["95, 10", 95, 10]]) for (const ignoreZero of B) yield { [part]: [raw], [other]: o, [part + "Ref"]: ref, pos, ignoreZero };
  }
  if (part === "pos") {
    const pts = [[[12, 34, 56.78], [79, 58, 56]], [[0, 30, 0], [0, 0, 0.36]], [[90, 0, 0], [180, 0, 0]], [[0, 0, 0], [0, 0, 0]], [[33, 55, 29.5], [122, 25, 9.85]], [[0, 0, 0], [12, 34, 56.78]]];
    for (const [a, b] of pts) for (const na of B) for (const nb of B) {
      const la = spellings("lat", ...a, na), lo = spellings("lon", ...b, nb);
      const all = [];
      for (const x of la) for (const y of lo) {
        const dec = (z) => z[2] === "number" || z[2] === "decimal text";
        if (dec(x) && dec(y) && x[2] === y[2]) for (const sep of [" ", ",", ", ", " , "]) all.push([`${Math.round(x[1] * 1e6) / 1e6}${sep}${Math.round(y[1] * 1e6) / 1e6}`, x[1], y[1]]);
        const hemi = (z) => / hemisphere$/.test(z[2]);
        if (hemi(x) && hemi(y)) for (const sep of [" ", ", "]) { all.push([x[0] + sep + y[0], x[1], y[1]]); if (!quick || sep === ", ") all.push([y[0] + sep + x[0], x[1], y[1]]); }
      }
      for (const pos of all) for (const ignoreZero of B) yield { pos, ignoreZero };
      for (const pos of all.slice(0, 40)) for (const lat of [undefined, num(-7.5), [JUNK[0]], [""]]) for (const lon of [undefined, num(8.5), [JUNK[0]]]) for (const latRef of [undefined, "N", "S"]) for (const lonRef of [undefined, "W"]) yield { pos, lat, lon, latRef, lonRef, ignoreZero: true };
    }
    // one axis on the meridian or the equator, the other only in the position
    for (const z of [0, -0, "0", "0.0", 0.5]) for (const axis of ["lat", "lon"]) for (const o of [undefined, [JUNK[0]], [""]]) for (const pos of [undefined, ["1.5 2.5", 1.5, 2.5], ["-1.5, -2.5", -1.5, -2.5], ["0 0", 0, 0], ["junk"]]) for (const ignoreZero of B) yield { [axis]: [z, Number(z)], [axis === "lat" ? "lon" : "lat"]: o, pos, ignoreZero };
    for (const pos of [["junk"], ["-, 1"], [", 1"], ["1,"], ["1 -"], ["- -"], [". ."], ["\u00b0 N, \u00b0 E"], ["1e1 2e1"], ["12\u00b0 N, 13\u00b0 E, 14\u00b0 E"], ["12\u00b0 N 13\u00b0 E junk"], ["12.5"], ["1 2 3"], ["12\u00b0 N"], ["12\u00b0 N, 13\u00b0 N"], ["12\u00b0 E, 13\u00b0 W"], ["12\u00b0 13\u00b0"], [""], ["91\u00b0 N 10\u00b0 E"], ["95 10", 95, 10], ["10 190", 10, 190], ["0 0", 0, 0], ["0, 0", 0, 0], ["-0 0", 0, 0]]) for (const lat of [undefined, num(5), [JUNK[0]]]) for (const lon of [undefined, num(6), [JUNK[0]]]) for (const ignoreZero of B) for (const group of [undefined, "Composite:"]) for (const reverse of B) yield { pos, lat, lon, ignoreZero, group, reverse };
  }
  if (part === "geo") {
    const LA = [-90, -45.5, -33.9249, -1.2, -1, -0.6, -0.4, -0.0098, 0, 0.0098, 0.4, 0.6, 1, 1.2, 33.9249, 45.5, 90], LO = [-180, -79.5, -0.01, 0, 0.01, 79.5, 180];
    const GA = [-90, -45, -33.5, -1.4, -0.5, -0.01, 0, 0.01, 0.5, 1.4, 33.5, 45, 90], GO = [-179.5, -79.5, -0.01, 0, 0.02, 79.5, 120];
    for (const la of LA) for (const lo of LO) for (const ga of GA) for (const go of GO) for (const [latRef, lonRef] of [[undefined, undefined], ["N", "E"], ["S", "W"], ["S", "E"]]) yield { lat: num(la), lon: num(lo), geo: [`${ga}, ${go}`, ga, go], latRef, lonRef, ignoreZero: false };
    for (const geo of [["junk"], [""], ["12.5"], ["0, 0", 0, 0], ["95, 200", 95, 200]]) for (const la of LA) for (const lo of LO) for (const latRef of REFS.lat) for (const ignoreZero of B) yield { lat: num(la), lon: num(lo), geo, latRef, ignoreZero };
  }
  if (part === "refs") for (const latRef of REFS.lat) for (const lonRef of REFS.lon) for (const la of [-90, -33.9, -0.5, 0, 0.5, 33.9, 90]) for (const lo of [-180, -79.5, -0.5, 0, 0.5, 79.5, 180]) for (const ignoreZero of B) for (const group of [undefined, "EXIF:"]) for (const reverse of quick ? [false] : B) yield { lat: num(la), lon: num(lo), latRef, lonRef, ignoreZero, group, reverse };
}
// Every single-character edit of valid texts: whatever still yields a coordinate denotes it.
const AL = [...Array.from({ length: 95 }, (_, i) => String.fromCharCode(32 + i)), "\t", "\n", "\0", "\u00a0", "\u2212", "\u0661", "\uff11", "\u00e9", "\u00b0", "\u2032", "\u2033", "\ufeff"];
function* edited(t, al = AL) { for (let i = 0; i <= t.length; i++) for (const c of [...al, ""]) { if (c) yield t.slice(0, i) + c + t.slice(i); if (i < t.length) yield t.slice(0, i) + c + t.slice(i + 1); } }
const ONE = String.raw`([+-]?)(\d+(?:\.\d*)?|\.\d+)\s*(?:(?:\u00b0|deg)\s*(?:(\d+(?:\.\d*)?)\s*['\u2032]\s*)?(?:(\d+(?:\.\d*)?)\s*["\u2033]\s*)?)?([NSEW])?`;
const R1 = new RegExp("^\\s*" + ONE + "[\\s,]*$", "i"), R2 = new RegExp("^\\s*" + ONE + "(?:[\\s,]+|(?<=[NSEW]))" + ONE + "[\\s,]*$", "i");
function denotes([sg, d, m, s, h]) { return Number(m ?? 0) >= 60 || Number(s ?? 0) >= 60 ? undefined : { h: (h ?? "").toUpperCase(), v: (sg === "-" || /[SW]/i.test(h ?? "") ? -1 : 1) * deg(Number(d), Number(m ?? 0), Number(s ?? 0)) }; }
async function edits(M, ctx) {
  let cur;
  const bench = new Bench(M, () => ({ out: JSON.stringify([{ SourceFile: F, ...cur }]) }), { maxProcs: 1, geoTz: () => ZONE }), seen = new Set();
  const BASES = [["GPSLatitude", { GPSLongitude: 10 }, `40 deg 26' 46.30" S`], ["GPSLongitude", { GPSLatitude: 10 }, "-79\u00b0 58.5' W"], ["GPSLatitude", { GPSLongitude: 10 }, "-12.75"], ["GPSLongitude", { GPSLatitude: 10 }, "122.25\u00b0 E"], ...[`12 deg 34' 56.78" N, 79 deg 58' 56.00" W`, "12.5 -79.25", "12.5,-79.25", "12.5\u00b0 S 79.25\u00b0 E"].map((b) => ["GPSPosition", {}, b])];
  const near = (a, b) => Math.abs(a - b) <= 0.55e-6;
  const judge = async (tag, others, t) => {
    cur = { ...others, [tag]: t };
    const key = "edit|" + show(cur);
    if (seen.has(key)) return false;
    seen.add(key); ctx.eval(key); ctx.add("transitions"); ctx.add("traces");
    const r = await bench.one(() => bench.et.read(F)), bad = (m) => ctx.violate(key, `${m} for ${show(cur)}`, { tags: cur });
    if (r.status !== "fulfilled") { bad("the read failed: " + (r.reason && r.reason.message)); return false; }
    const { GPSLatitude: la, GPSLongitude: lo } = r.value;
    if (tag === "GPSPosition") {
      if (typeof la !== "number" && typeof lo !== "number") { ctx.outcome("edited: none"); return false; }
      const m = R2.exec(t), p = m && denotes(m.slice(1, 6)), q = m && denotes(m.slice(6, 11)), swap = p && /[EW]/.test(p.h);
      if (!p || !q || !near(la, (swap ? q : p).v) || !near(lo, (swap ? p : q).v)) bad(`position ${la}, ${lo}`);
    } else {
      const v = r.value[tag];
      if (typeof v !== "number") { ctx.outcome("edited: none"); return false; }
      const m = R1.exec(t), w = m && denotes(m.slice(1));
      if (!w || !near(v, w.v)) bad(`${tag} ${v}`);
    }
    ctx.outcome("edited: coordinate");
    return true;
  };
  for (const [tag, others, b] of BASES) {
    const kept = [];
    for (const t of edited(b)) if (await judge(tag, others, t)) kept.push(t);
    if (!ctx.quick) for (const t of kept) for (const u of edited(t, [..."05.-' \"NSW\u00b0,"])) await judge(tag, others, u);
  }
  bench.close();
}
module.exports = {
  id: "C17", level: "model_checking",
  rule: "distinct = distinct (latitude, longitude, position, geolocation, references, options) reads compared with the coordinate model",
  bounds: (t) => ({ points: POINTS, outOfRange: OUT, references: REFS, notCoordinates: JUNK, edits: "every one-character edit of 8 valid texts" + (t === "quick" ? "" : ", and a second one from 12 characters"), spellingsPerPoint: spellings("lat", 1, 2, 3, true).length }),
  assumptions: ["the coordinate-to-zone lookup is a stand-in that records its arguments, except on the grid of points read with the library's own lookup", "a coordinate within one degree of the reported geolocation is in the right hemisphere"],
  shards(tier) { const s = []; for (const part of ["lat", "lon", "pos", "geo", "refs"]) { const of = tier === "quick" ? { lat: 3, lon: 3, pos: 2, geo: 2, refs: 1 }[part] : 4; for (let i = 0; i < of; i++) s.push({ part, i, of }); } s.push({ part: "edits" }, { part: "world", i: 0, of: 1 }); return s; },
  async run(shard, ctx) {
    const M = load(ctx.dist);
    if (shard.part === "world") return world(M, ctx, [shard.i, shard.of]);
    if (shard.part === "edits") return edits(M, ctx);
    let cur, looked = [];
    const bench = new Bench(M, () => ({ out: JSON.stringify([{ SourceFile: F, ...cur }]) }), { maxProcs: 1, geoTz: (a, b) => { looked.push([a, b]); return ZONE; } });
    let n = 0;
    for (const c of cases(shard.part, ctx.quick)) {
      if (n++ % shard.of !== shard.i) continue;
      cur = tagsOf(c); looked = [];
      const r = await bench.one(() => bench.et.read(F, { ignoreZeroZeroLatLon: c.ignoreZero, geolocation: Boolean(c.geo), ...(c.group && { readArgs: ["-fast", "-G"] }) }));
      const key = show([cur, c.ignoreZero]);
      ctx.eval(key); ctx.add("transitions"); ctx.add("traces");
      const why = judge(c, r, looked);
      if (why) ctx.violate(key, `${why} for ${show(cur)} (ignoreZeroZeroLatLon ${c.ignoreZero})`, { tags: cur, c });
      else ctx.outcome(expected(c).kind);
      if (n < 5) ctx.sample({ tags: cur, result: r.value && [r.value.GPSLatitude, r.value.GPSLatitudeRef, r.value.GPSLongitude, r.value.GPSLongitudeRef] });
    }
    bench.close();
  },
};
