"use strict";
// Whole reads of a grid of points with the library's own coordinate-to-zone lookup,
// against the zone that the published lookup table gives for the reported point.
const path = require("node:path");
const { Bench, show } = require("./harness.js");
const F = "/s/f.jpg", AT = [Date.UTC(2020, 0, 15), Date.UTC(2020, 6, 15), Date.UTC(2012, 6, 15)];
const memo = new Map();
function offsets(zone) {
  if (!memo.has(zone)) memo.set(zone, AT.map((t) => {
    const m = /^(?:UTC|GMT)(?:([+-])(\d{1,2})(?::(\d{2}))?)?$/.exec(zone);
    if (m) return m[1] ? (m[1] === "-" ? -1 : 1) * (60 * m[2] + Number(m[3] ?? 0)) : 0;
    const p = Object.fromEntries(new Intl.DateTimeFormat("en-US", { timeZone: zone, hourCycle: "h23", year: "numeric", month: "numeric", day: "numeric", hour: "numeric", minute: "numeric" }).formatToParts(t).map((x) => [x.type, Number(x.value)]));
    return (Date.UTC(p.year, p.month - 1, p.day, p.hour, p.minute) - t) / 60000;
  }).join());
  return memo.get(zone);
}
function* points(step) {
  for (let a = -90; a <= 90; a += step) for (let o = -180; o <= 180; o += step) if (a !== 0 || o !== 0) yield [a, o];
  // pairs of near points either side of a border, in every order a cache or a rounding could confuse
  for (const [a, o] of [[32.5, -117.05], [32.55, -117.05], [1.3, 103.8], [47.6, 9.6], [50.78, 6.02], [-16.5, 179.9], [-16.5, -179.9], [28.3, 84.1], [27.4, 84.1], [36.1, -114.74], [36.1, -114.9], [41.6, 1.55], [42.5, 1.55]]) for (const d of [0, 0.02, -0.02, 0.4]) { yield [a + d, o]; yield [a, o + d]; yield [a - d, o - d]; }
}
async function world(M, ctx, part) {
  const lookup = require(require.resolve("@photostructure/tz-lookup", { paths: [path.dirname(require.resolve(path.join(ctx.dist, "ExifTool.js")))] }));
  // both sides of each border between neighbouring grid points, close enough to share any
  // coarser rounding of their coordinates
  const list = [...points(ctx.quick ? 5 : 2)];
  for (let a = -85, S = ctx.quick ? 5 : 2; a <= 85; a += S) for (let o = -180; o < 180; o += S) for (const [da, dt] of [[0, S], [S, 0]]) {
    let lo = [a, o], hi = [a + da, o + dt];
    const za = offsets(lookup(...lo));
    if (Math.abs(hi[0]) > 90 || hi[1] > 180 || za === offsets(lookup(...hi))) continue;
    while (Math.hypot(hi[0] - lo[0], hi[1] - lo[1]) > 0.004) { const m = [(lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2]; if (offsets(lookup(...m)) === za) lo = m; else hi = m; }
    list.push(lo, hi);
  }
  let cur;
  const bench = new Bench(M, () => ({ out: JSON.stringify([{ SourceFile: F, ...cur }]) }), { maxProcs: 1 });
  let n = 0;
  for (const [a0, o0] of list) for (const form of [0, 1]) {
    if (n++ % part[1] !== part[0]) continue;
    const a = Math.round(a0 * 1e6) / 1e6, o = Math.round(o0 * 1e6) / 1e6;
    if (Math.abs(a) > 90 || Math.abs(o) > 180) continue;
    const refs = form ? { GPSLatitudeRef: a < 0 ? "S" : "N", GPSLongitudeRef: o < 0 ? "W" : "E" } : {};
    cur = { GPSLatitude: a, GPSLongitude: o, ...refs, DateTimeOriginal: "2020:07:15 12:00:00" };
    const want = lookup(a, o);
    const r = await bench.one(() => bench.et.read(F));
    const key = "world:" + show(cur);
    ctx.eval(key); ctx.add("transitions"); ctx.add("traces");
    const v = r.value;
    const why = r.status !== "fulfilled" ? "the read failed: " + r.reason
      : typeof v.tz !== "string" ? `no zone, expected ${want}`
      : offsets(v.tz) !== offsets(want) ? `zone ${v.tz} (${v.tzSource}), expected ${want}`
      : v.DateTimeOriginal?.tzoffsetMinutes !== Number(offsets(want).split(",")[1]) ? `DateTimeOriginal has offset ${v.DateTimeOriginal?.tzoffsetMinutes}, expected that of ${want}` : undefined;
    if (why) ctx.violate(key, `${why} at ${a}, ${o}`, { tags: cur });
    else ctx.outcome("world");
  }
  bench.close();
}
module.exports = { world };
