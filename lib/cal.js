"use strict";
// Independent civil calendar and zone model (no Luxon): validity of fields, epoch
// minutes, and offsets of named zones as the JavaScript engine's own zone data has them.
const leap = (y) => (y % 4 === 0 && y % 100 !== 0) || y % 400 === 0;
const dim = (y, m) => (m === 2 ? (leap(y) ? 29 : 28) : [4, 6, 9, 11].includes(m) ? 30 : 31);
const dateOK = (y, m, d) => m >= 1 && m <= 12 && d >= 1 && d <= dim(y, m);
const timeOK = (h, mi, s) => h >= 0 && h <= 23 && mi >= 0 && mi <= 59 && s >= 0 && s <= 59;
// days since 1970-01-01, counted from the calendar rules
function days(y, m, d) {
  const y0 = y - 1;
  let n = y0 * 365 + Math.floor(y0 / 4) - Math.floor(y0 / 100) + Math.floor(y0 / 400);
  for (let i = 1; i < m; i++) n += dim(y, i);
  return n + d - 1 - 719162;
}
const localMs = (f) => (((days(f.y, f.mo, f.d) * 24 + f.h) * 60 + f.mi) * 60 + (f.s ?? 0)) * 1000 + (f.ms ?? 0);
function civil(ms) {
  let n = Math.floor(ms / 864e5), r = ms - n * 864e5, y = Math.floor(n / 365.2425) + 1970;
  while (days(y, 1, 1) > n) y--;
  while (days(y + 1, 1, 1) <= n) y++;
  let k = n - days(y, 1, 1), m = 1;
  while (k >= dim(y, m)) k -= dim(y, m++);
  return { y, mo: m, d: k + 1, h: Math.floor(r / 36e5), mi: Math.floor(r / 6e4) % 60, s: Math.floor(r / 1000) % 60, ms: r % 1000 };
}
const fmts = new Map(), offs = new Map();
// offset (minutes) of a named zone at an instant
function zoneOffset(zone, ms) {
  const key = zone + "|" + Math.floor(ms / 6e4);
  if (offs.has(key)) return offs.get(key);
  let f = fmts.get(zone);
  if (!f) fmts.set(zone, (f = new Intl.DateTimeFormat("en-US", { timeZone: zone, hourCycle: "h23", era: "short", year: "numeric", month: "numeric", day: "numeric", hour: "numeric", minute: "numeric", second: "numeric" })));
  const p = {};
  for (const { type, value } of f.formatToParts(ms)) p[type] = value;
  const t = localMs({ y: Number(p.year), mo: Number(p.month), d: Number(p.day), h: Number(p.hour), mi: Number(p.minute), s: Number(p.second) });
  const o = (t - Math.floor(ms / 1000) * 1000) / 6e4;
  if (offs.size > 2e5) offs.clear();
  offs.set(key, o);
  return o;
}
// every offset under which the local time exists in the zone ([] = skipped, 2 = repeated)
function offsetsAt(zone, f) {
  const l = localMs(f), out = new Set();
  for (const probe of [-26, -14, 0, 14, 26]) { const o = zoneOffset(zone, l + probe * 36e5); if (zoneOffset(zone, l - o * 6e4) === o) out.add(o); }
  return [...out].sort((a, b) => b - a);
}
module.exports = { leap, dim, dateOK, timeOK, days, localMs, civil, zoneOffset, offsetsAt };
