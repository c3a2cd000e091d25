"use strict";
// Date/time texts against an independent calendar model, under several host zones.
const { load } = require("../lib/load.js");
const { Bench, show } = require("../lib/harness.js");
const { obs } = require("../lib/obs.js");
const cal = require("../lib/cal.js");

const p2 = (n) => String(n).padStart(2, "0");
const HOSTS = ["UTC", "America/Los_Angeles", "Asia/Kolkata", "Pacific/Apia", "Australia/Lord_Howe"];
const FORMS = [ // [name, date sep, date/time sep, padded]
  ["exif", ":", " ", true], ["isoT", "-", "T", true], ["isoSp", "-", " ", true], ["exifLoose", ":", " ", false],
];
const FRACS = ["", ".0", ".5", ".05", ".052", ".0529", ".999", ".999999", ".123456789", ".000"];
const fracMs = (f) => (f === "" ? undefined : Number((f.slice(1) + "000").slice(0, 3)));
// suffix -> stated offset in minutes; must = canonical spelling of a supported offset, so it has to be accepted
const SUFFIX = [["", undefined, true], ["Z", 0, true], [" Z", 0], [" UTC", 0]];
for (const m of [0, 60, 120, 210, 330, 345, 525, 570, 630, 720, 765, 780, 825, 840, -60, -150, -180, -210, -300, -480, -510, -570, -600, -660]) {
  const sg = m < 0 ? "-" : "+", a = Math.abs(m), h = Math.floor(a / 60), mm = p2(a % 60);
  SUFFIX.push([`${sg}${p2(h)}:${mm}`, m, true]);
  if ([330, -480, 0, -210].includes(m)) for (const x of [` ${sg}${p2(h)}:${mm}`, `${sg}${p2(h)}${mm}`, `${sg}${h}:${mm}`, `${sg === "-" ? "\u2212" : "+"}${p2(h)}:${mm}`, ` UTC${sg}${h}:${mm}`, `${sg}${p2(h)}:${mm} PST`, `UTC${sg}${p2(h)}:${mm}`]) SUFFIX.push([x, m]);
}
for (const [x, m] of [["-00:00", 0], ["-8", -480], ["+01", 60], ["+10", 600], ["-12:00", -720], ["+15:00", 900], ["-13:00", -780], ["+01:24", 84], ["+05:31", 331], ["+99:00", 5940], ["-23:59", -1439], ["+08:60", NaN], ["+00:20", 20], ["-00:30", -30], ["-00:01", -1], ["+00:01", 1], [" EST", -300], [" EDT", -240], [" PDT", -420], [" JST", 540], [" CET", 60], [" IST", undefined, false, "amb"], [" CST", undefined, false, "amb"], [" XYZ", undefined, false, "amb"], [" GMT", 0], ["z", 0], ["Z junk!", NaN], [" +", NaN], ["-", NaN], ["Zulu", 0], [".", NaN], [" PM", NaN]]) SUFFIX.push([x, m]);
const amb = new Set([" IST", " CST", " XYZ"]);
const DEFAULTS = [undefined, "", "UTC", "UTC-8", "UTC+5:30", "America/Los_Angeles", "Australia/Lord_Howe", "Europe/London", "Pacific/Apia"];
const fixedOff = { UTC: 0, "UTC-8": -480, "UTC+5:30": 330 };
const YEARS = [2, 99, 100, 1900, 1970, 2000, 2023, 2024, 9999], MONTHS = [0, 1, 2, 3, 4, 12, 13], DAYS = [0, 1, 28, 29, 30, 31, 32];
const HOURS = [0, 1, 2, 12, 23, 24, 25], MINS = [0, 30, 59, 60], SECS = [undefined, 0, 59, 60];
const EDGE = [[2023, 3, 12], [2023, 11, 5], [2011, 12, 30], [2023, 4, 2], [2023, 10, 1], [2023, 1, 1], [2024, 2, 29], [1969, 12, 31], [2023, 2, 29]];
const EDGET = [[2, 30, 0], [1, 45, 59], [0, 0, 0], [23, 59, 59], [2, 30, undefined]];
const dt = (form, y, mo, d, h, mi, s, fr) => {
  const [, ds, sep, pad] = form, q = pad ? p2 : String;
  return `${pad ? String(y).padStart(4, "0") : y}${ds}${q(mo)}${ds}${q(d)}${sep}${p2(h)}:${p2(mi)}${s === undefined ? "" : ":" + p2(s) + fr}`;
};

function* texts(part, quick) {
  const D = [undefined], Z0 = SUFFIX[0], ZZ = SUFFIX[1], ZI = ["+05:30", 330, true];
  if (part === "date")
    for (const form of FORMS) for (const y of YEARS) for (const mo of MONTHS) for (const d of DAYS) for (const [h, mi, s, fr] of [[0, 0, 0, ""], [23, 59, 59, ".052"], [12, 30, undefined, ""], [2, 30, 0, ".5"]]) for (const z of [Z0, ZZ, ZI]) yield { form, f: { y, mo, d, h, mi, s }, fr, z, dz: z === Z0 ? "UTC-8" : undefined };
  if (part === "time")
    for (const form of FORMS) for (const [y, mo, d] of EDGE.slice(0, quick ? 3 : 9)) for (const h of HOURS) for (const mi of MINS) for (const s of SECS) for (const fr of s === undefined ? [""] : quick ? ["", ".5", ".0529"] : FRACS) for (const z of [Z0, ["-08:00", -480, true]]) yield { form, f: { y, mo, d, h, mi, s }, fr, z, dz: undefined };
  if (part === "zone")
    for (const form of quick ? [FORMS[0], FORMS[1]] : FORMS) for (const [y, mo, d] of EDGE) for (const [h, mi, s] of quick ? EDGET.slice(0, 3) : EDGET) for (const fr of s === undefined ? [""] : ["", ".25"]) for (const z of SUFFIX) for (const dz of z[0] === "" ? DEFAULTS : quick ? [undefined, "UTC-8"] : [undefined, "UTC-8", "America/Los_Angeles"]) yield { form, f: { y, mo, d, h, mi, s }, fr, z, dz };
  if (part === "frac")
    for (const form of FORMS) for (const fr of FRACS) for (let n = 0; n < (quick ? 200 : 1000); n++) {
      const x = fr === "" ? "." + String(n).padStart(3, "0") : fr + n; // every millisecond, and every continuation of a fraction
      if (x.length <= 10) yield { form, f: { y: 2023, mo: 6, d: 15, h: 10, mi: 20, s: 30 }, fr: x, z: n % 2 ? Z0 : ZI, dz: undefined };
    }
}

function describe(v) { return v === undefined ? "undefined" : obs(v); }

// complaint, or undefined, about parsing `c` to `v`
function judge(c, text, v) {
  const { f, fr, z, dz } = c, [sfx, off, must] = z, named = dz && !(dz in fixedOff);
  const midnight24 = f.h === 24 && f.mi === 0 && (f.s ?? 0) === 0 && (fracMs(fr) ?? 0) === 0;
  const possible = cal.dateOK(f.y, f.mo, f.d) && (cal.timeOK(f.h, f.mi, f.s ?? 0) || midnight24) && !Number.isNaN(off);
  if (v === undefined) return possible && must && !midnight24 && c.form[0] !== "exifLoose" && !(f.s === undefined && sfx !== "") ? "was rejected" : undefined;
  if (!possible) return "names no date and time, but was accepted as " + describe(v);
  let want = { ...f, s: f.s ?? 0, ms: fracMs(fr) };
  if (midnight24) want = { ...cal.civil((cal.days(f.y, f.mo, f.d) + 1) * 864e5), ms: want.ms };
  let wantOff = off, inferred = false, skipped = false;
  if (amb.has(sfx)) { if (v.hasZone) wantOff = v.tzoffsetMinutes; }
  else if (off === undefined) {
    if (!dz) wantOff = undefined;
    else {
      inferred = true;
      if (named) { const os = cal.offsetsAt(dz, want); if (!os.length) { skipped = true; wantOff = v.tzoffsetMinutes; } else wantOff = os.includes(v.tzoffsetMinutes) ? v.tzoffsetMinutes : os[0]; }
      else wantOff = fixedOff[dz];
    }
  }
  if (amb.has(sfx)) inferred = v.inferredZone;
  if (v.hasZone !== (wantOff !== undefined)) return (v.hasZone ? "acquired a zone: " : "lost its zone: ") + describe(v);
  if (v.tzoffsetMinutes !== wantOff) return `means UTC offset ${wantOff} min but became ${describe(v)}`;
  if (named && inferred && v.zoneName !== dz) return `in zone ${dz} became ${describe(v)}`;
  if (Boolean(v.inferredZone) !== Boolean(inferred)) return `zone ${inferred ? "was assumed" : "was stated"} but inferredZone is ${v.inferredZone}`;
  const got = { y: v.year, mo: v.month, d: v.day, h: v.hour, mi: v.minute, s: v.second, ms: v.millisecond };
  if (skipped) { // a local time the zone's rules skip may be moved by the size of the gap
    const delta = Math.abs(cal.localMs(got) - cal.localMs(want));
    return delta <= 864e5 && (got.ms ?? 0) === (want.ms ?? 0) ? undefined : `became ${describe(v)}`;
  }
  for (const k of Object.keys(got)) if (got[k] !== want[k] && !(k === "ms" && midnight24)) return `${k} is ${got[k]}, expected ${want[k]}: ${describe(v)}`;
  if (v.rawValue !== text) return `original text became ${show(v.rawValue)}`;
  if (wantOff !== undefined && v.toMillis() !== cal.localMs({ ...want }) - wantOff * 6e4) return `instant is ${v.toMillis()}, expected ${cal.localMs(want) - wantOff * 6e4}`;
}
const zed = (t) => t?.replace(/Z$/, "+00:00"); // two spellings of the same offset
const same = (a, b) => a !== undefined && b !== undefined && ["year", "month", "day", "hour", "minute", "second", "millisecond", "tzoffsetMinutes"].every((k) => a[k] === b[k]) && a.hasZone === b.hasZone && a.toExifString() === b.toExifString() && zed(a.toISOString()) === zed(b.toISOString()) && (!a.hasZone || a.toMillis() === b.toMillis());
// what the renderings must be, from the fields
function rendered(v) {
  const ms = v.millisecond == null ? "" : "." + String(v.millisecond).padStart(3, "0");
  const o = v.tzoffsetMinutes, off = !v.hasZone ? "" : (o < 0 ? "-" : "+") + p2(Math.floor(Math.abs(o) / 60)) + ":" + p2(Math.abs(o) % 60);
  const t = `${p2(v.hour)}:${p2(v.minute)}:${p2(v.second)}${ms}`;
  return [`${String(v.year).padStart(4, "0")}:${p2(v.month)}:${p2(v.day)} ${t}${off}`, `${String(v.year).padStart(4, "0")}-${p2(v.month)}-${p2(v.day)}T${t}${off}`];
}

const MON = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"], WD = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];

module.exports = {
  id: "C12", level: "model_checking",
  rule: "distinct = distinct (host zone, parser, text, default zone) cases compared with the calendar model",
  bounds: (t) => ({ hostZones: HOSTS, forms: FORMS.map((f) => f[0]), years: YEARS, months: MONTHS, days: DAYS, hours: HOURS, minutes: MINS, seconds: SECS, fractions: FRACS.length, zoneSuffixes: SUFFIX.length, defaultZones: DEFAULTS, dates: "every day of 1900, 2000, 2023, 2024 and 2011", edits: "every one-character edit of 15 valid texts (thorough: two edits, the second from 10 characters)", roundTrips: "EXIF and ISO renderings of every accepted value" }),
  assumptions: ["24:00:00 denotes the following midnight", "a local time skipped by a named default zone's rules may be moved by the gap", "zone data of the JavaScript engine"],
  shards(tier) {
    const s = [];
    for (const TZ of HOSTS) {
      for (const part of ["date", "time", "frac", "other", "read", "edits"]) if (tier !== "quick" || !["time", "frac", "edits"].includes(part) || HOSTS.indexOf(TZ) % 2 === 1) s.push({ part, TZ, env: { TZ } });
      const n = tier === "quick" ? 2 : 4;
      for (let i = 0; i < n; i++) s.push({ part: "zone", i, of: n, TZ, env: { TZ } });
    }
    return s;
  },
  async run(shard, ctx) {
    const M = load(ctx.dist), { ExifDateTime, ExifDate, ExifTime } = M;
    if (new Date(2023, 6, 1).getTimezoneOffset() !== -cal.zoneOffset(shard.TZ, Date.UTC(2023, 6, 1))) throw new Error("host zone not applied");
    const bad = (key, text, dz, why) => ctx.violate(`${shard.TZ}|${key}|${text}|${dz}`, `host ${shard.TZ}: ${key}(${show(text)}, ${show(dz)}): ${why}`, { text, dz, host: shard.TZ });
    if (shard.part === "other") return other(ctx, M, bad, shard);
    if (shard.part === "edits") return edits(ctx, M, bad, shard);
    if (shard.part === "read") return read(ctx, M, bad, shard);
    const log = [];
    let n = 0;
    for (const c of texts(shard.part, ctx.quick)) {
      if (shard.of && n++ % shard.of !== shard.i) continue;
      const text = dt(c.form, c.f.y, c.f.mo, c.f.d, c.f.h, c.f.mi, c.f.s, c.fr) + c.z[0];
      const id = `${shard.TZ}|${text}|${c.dz}`;
      ctx.eval(id); ctx.add("transitions");
      let v;
      try { v = ExifDateTime.from(text, c.dz); } catch (e) { bad("from", text, c.dz, "threw " + e); continue; }
      const why = judge(c, text, v);
      if (why) { bad("from", text, c.dz, why); continue; }
      ctx.outcome(v === undefined ? "rejected" : v.hasZone ? (v.inferredZone ? "assumed" : "stated") : "zoneless");
      // the other entry points accept no more and mean the same
      for (const [name, f] of [["fromEXIF", (t, z) => ExifDateTime.fromEXIF(t, z)], ["fromISO", (t, z) => ExifDateTime.fromISO(t, z)], ["fromExifStrict", (t, z) => ExifDateTime.fromExifStrict(t, z)]]) {
        if (name === "fromISO" && c.form[0].startsWith("exif")) continue;
        if (v === undefined && name !== "fromEXIF" && ctx.quick) continue;
        const w = f(text, c.dz);
        if (show(w) !== show(v)) bad(name, text, c.dz, `gives ${describe(w)}, from() gives ${describe(v)}`);
      }
      if (log.length < 20000) log.push([text, c.dz, show(v)]);
      if (v === undefined) continue;
      ctx.add("traces");
      const r = [v.toExifString(), v.toISOString()], want = rendered(v);
      for (const i of [0, 1]) {
        if (zed(r[i]) !== want[i]) { bad("from", text, c.dz, `renders as ${show(r[i])}, not ${want[i]}`); continue; }
        const w = ExifDateTime.from(r[i]);
        if (!same(v, w)) bad("from", text, c.dz, `rendered ${show(r[i])} re-parses as ${describe(w)}, was ${describe(v)}`);
      }
      if (String(v) !== r[1]) bad("from", text, c.dz, `toString gives ${String(v)}`);
    }
    // order independence: the same texts again, backwards
    for (let i = log.length - 1; i >= 0; i--) { const [t, z, s] = log[i]; if (show(ExifDateTime.from(t, z)) !== s) { bad("from", t, z, "means something else when parsed after other texts"); break; } }
    ctx.sample({ host: shard.TZ, part: shard.part, example: log[7] });
  },
};

function other(ctx, M, bad, shard) {
  const { ExifDateTime, ExifDate, ExifTime } = M;
  // ExifDate: every calendar day of several years in every form, and impossible ones
  const dateForms = [["exif", (y, m, d) => `${y}:${p2(m)}:${p2(d)}`, true], ["iso", (y, m, d) => `${y}-${p2(m)}-${p2(d)}`, true], ["bare", (y, m, d) => `${y}:${m}:${d}`, true], ["bareIso", (y, m, d) => `${y}-${m}-${d}`], ["mon", (y, m, d) => m >= 1 && m <= 12 ? `${MON[m - 1].slice(0, 3)} ${d} ${y}` : `Foo ${d} ${y}`, true], ["month", (y, m, d) => m >= 1 && m <= 12 ? `${MON[m - 1]} ${d} ${y}` : `Foober ${d} ${y}`, true], ["blank", (y, m, d) => ` ${y}:${p2(m)}:${p2(d)} `]];
  const memo = [];
  for (const y of [1900, 2000, 2011, 2023, 2024, 1, 99, 9999]) for (let m = 0; m <= 13; m++) for (let d = 0; d <= 32; d++) for (const [fn, f, must] of dateForms) {
    if (y < 1000 && fn !== "exif") continue;
    const text = f(y < 1000 ? String(y).padStart(4, "0") : y, m, d);
    ctx.eval(`${shard.TZ}|date|${text}`); ctx.add("transitions");
    let v;
    try { v = ExifDate.from(text); } catch (e) { bad("ExifDate", text, undefined, "threw " + e); continue; }
    const ok = cal.dateOK(y, m, d);
    if (v === undefined) { if (ok && must) bad("ExifDate", text, undefined, "was rejected"); continue; }
    if (!ok) { bad("ExifDate", text, undefined, "names no date but was accepted as " + describe(v)); continue; }
    if (v.year !== y || v.month !== m || v.day !== d) { bad("ExifDate", text, undefined, "became " + describe(v)); continue; }
    ctx.add("traces");
    if (v.toExifString() !== `${y}:${p2(m)}:${p2(d)}` || v.toISOString() !== `${y}-${p2(m)}-${p2(d)}`) bad("ExifDate", text, undefined, `renders as ${v.toExifString()} / ${v.toISOString()}`);
    for (const r of [v.toExifString(), v.toISOString(), String(v)]) { const w = ExifDate.from(r); if (!(w && w.year === y && w.month === m && w.day === d && w.isFullDate())) bad("ExifDate", text, undefined, `rendered ${r} re-parses as ${describe(w)}`); }
    memo.push([text, show(v)]);
  }
  for (const [t, s] of memo.reverse()) if (show(ExifDate.from(t)) !== s) { bad("ExifDate", t, undefined, "means something else the second time"); break; }
  // partial dates
  for (const y of [1, 12, 99, 1899, 2023, 9999]) {
    for (const text of [String(y), y]) { const v = ExifDate.from(text); ctx.eval(`${shard.TZ}|year|${typeof text}${text}`); if (v === undefined ? y >= 100 : v.year !== y || v.month != null || v.day != null || !v.isYearOnly() || !v.isPartial() || v.toExifString() !== String(y) || v.toISOString() !== String(y)) bad("ExifDate", text, undefined, "became " + describe(v)); }
    for (let m = 0; m <= 13; m++) for (const text of [`${y}:${p2(m)}`, `${y}-${p2(m)}`, `${y}:${m}`]) {
      const v = ExifDate.from(text), ok = m >= 1 && m <= 12;
      ctx.eval(`${shard.TZ}|ym|${text}`);
      if (v === undefined) { if (ok && y > 1000) bad("ExifDate", text, undefined, "was rejected"); continue; }
      if (!ok || v.year !== y || v.month !== m || v.day != null || !v.isYearMonth() || v.toExifString() !== `${y}:${p2(m)}` || v.toISOString() !== `${y}-${p2(m)}`) bad("ExifDate", text, undefined, "became " + describe(v));
      const w = ExifDate.from(v.toExifString());
      if (!w || w.year !== y || w.month !== m || w.day != null) bad("ExifDate", text, undefined, `rendered ${v.toExifString()} re-parses as ${describe(w)}`);
    }
  }
  // texts that are no date at all
  for (const text of ["11:30:00", "00", "0", "0000", "0000:00:00", "11:30", "10:00:00.5", "2023:01:02 03:04:05", "2023-01-02T03:04:05Z", "W23", "2023-W05-3", "2023-060", "T10:00", "a b c", "Jan 32 2023", "1 2 3", "2023:01:02:03", "2023-01-02-03", "-2023:01:02", "2023:01:02Z"]) {
    const v = ExifDate.from(text); ctx.eval(`${shard.TZ}|nodate|${text}`);
    if (v !== undefined && !(text === "11:30" && false)) bad("ExifDate", text, undefined, "was accepted as " + describe(v));
  }
  // ExifTime
  for (const h of [0, 1, 2, 11, 12, 13, 23, 24, 25, 99]) for (const mi of [0, 1, 30, 59, 60, 99]) for (const s of [undefined, 0, 1, 59, 60]) for (const fr of s === undefined ? [""] : FRACS) for (const z of [SUFFIX[0], SUFFIX[1], ["+05:30", 330, true], ["-08:00", -480, true], ["-00:30", -30], ["+15:00", 900], ["Z junk!", NaN], ["+08:60", NaN]]) for (const dz of z[0] === "" ? [undefined, "", "UTC", "UTC-8", "UTC+5:30"] : [undefined, "UTC-8"]) {
    const text = `${p2(h)}:${p2(mi)}${s === undefined ? "" : ":" + p2(s) + fr}${z[0]}`;
    ctx.eval(`${shard.TZ}|time|${text}|${dz}`); ctx.add("transitions");
    let v;
    try { v = ExifTime.fromEXIF(text, dz); } catch (e) { bad("ExifTime", text, dz, "threw " + e); continue; }
    const m24 = h === 24 && mi === 0 && (s ?? 0) === 0 && !(fracMs(fr) > 0), ok = (cal.timeOK(h, mi, s ?? 0) || m24) && !Number.isNaN(z[1]);
    if (v === undefined) { if (ok && z[2] && !m24 && !(s === undefined && z[0] !== "")) bad("ExifTime", text, dz, "was rejected"); continue; }
    if (!ok) { bad("ExifTime", text, dz, "names no time but was accepted as " + describe(v)); continue; }
    const off = z[1] ?? (dz ? fixedOff[dz] : undefined);
    const want = { h: h % 24, mi, s: s ?? 0, ms: fracMs(fr) }, got = { h: v.hour, mi: v.minute, s: v.second, ms: v.millisecond };
    const zt = off === undefined ? "" : off === 0 ? "UTC" : `UTC${off < 0 ? "-" : "+"}${Math.floor(Math.abs(off) / 60)}${off % 60 ? ":" + p2(Math.abs(off) % 60) : ""}`;
    if (show(want) !== show(got) && !m24) { bad("ExifTime", text, dz, "became " + describe(v)); continue; }
    if ((v.zone ?? "") !== zt || Boolean(v.inferredZone) !== (z[0] === "" && !!dz) || v.rawValue !== text) { bad("ExifTime", text, dz, `zone ${zt || "none"} became ${describe(v)}`); continue; }
    ctx.add("traces");
    const r = v.toExifString(), ro = off === undefined ? "" : (off < 0 ? "-" : "+") + p2(Math.floor(Math.abs(off) / 60)) + ":" + p2(Math.abs(off) % 60);
    if (r !== `${p2(v.hour)}:${p2(mi)}:${p2(s ?? 0)}${fr === "" ? "" : "." + String(fracMs(fr)).padStart(3, "0")}${ro}` || v.toISOString() !== r || String(v) !== r) bad("ExifTime", text, dz, `renders as ${r}`);
    const w = ExifTime.fromEXIF(r);
    if (!w || w.hour !== v.hour || w.minute !== v.minute || w.second !== v.second || w.millisecond !== v.millisecond || w.zone !== v.zone) bad("ExifTime", text, dz, `rendered ${r} re-parses as ${describe(w)}`);
  }
  // wordy timestamps
  for (const [y, mo, d] of [...EDGE, [2016, 10, 13], [2025, 6, 17]]) for (const [h, mi, s] of [[0, 0, 0], [0, 12, 27], [2, 30, 0], [12, 0, 1], [13, 29, 1], [23, 59, 59]]) for (const dz of [undefined, "UTC-8", "UTC"]) for (const [sfx, off] of [["", undefined], [" EST", -300], [" +05:30", 330], ["Z", 0]]) {
    const ok = cal.dateOK(y, mo, d), wd = ok ? WD[(cal.days(y, mo, d) + 3 + 700000) % 7] : "Mon", wrong = WD[(WD.indexOf(wd) + 1) % 7], mon = MON[mo - 1].slice(0, 3), t = `${p2(h)}:${p2(mi)}:${p2(s)}`, h12 = `${p2(h % 12 || 12)}:${p2(mi)}:${p2(s)} ${h < 12 ? "AM" : "PM"}`;
    for (const [body, possible] of [[`${mon} ${d} ${y} ${t}`, ok], [`${mon} ${d} ${y}, ${t}`, ok], [`${wd} ${mon} ${d} ${t} ${y}`, ok], [`${wrong} ${mon} ${d} ${t} ${y}`, false], [`${wd} ${d} ${mon} ${y} ${h12}`, ok], [`${wd} ${d} ${mon} ${y} ${t}`, ok], [`${wrong} ${d} ${mon} ${y} ${t}`, false], [`${d} ${mon} ${y} ${h12}`, ok], [`${d} ${mon} ${y} ${t}`, ok]]) {
      const text = body + sfx;
      ctx.eval(`${shard.TZ}|loose|${text}|${dz}`); ctx.add("transitions");
      const v = ExifDateTime.from(text, dz);
      if (v === undefined) { if (possible && sfx === "") bad("from", text, dz, "was rejected"); continue; }
      if (!possible) { bad("from", text, dz, "contradicts itself but was accepted as " + describe(v)); continue; }
      const wantOff = off ?? (dz ? fixedOff[dz] : undefined);
      if (v.year !== y || v.month !== mo || v.day !== d || v.hour !== h || v.minute !== mi || v.second !== s || (v.millisecond ?? 0) !== 0 || v.tzoffsetMinutes !== wantOff || v.hasZone !== (wantOff !== undefined) || Boolean(v.inferredZone) !== (off === undefined && !!dz)) { bad("from", text, dz, "became " + describe(v)); continue; }
      const want = rendered(v);
      if (v.toExifString() !== want[0] || zed(v.toISOString()) !== want[1] || !same(v, ExifDateTime.from(v.toExifString())) || !same(v, ExifDateTime.from(v.toISOString()))) bad("from", text, dz, `renders as ${v.toExifString()} / ${v.toISOString()}`);
      ctx.add("traces");
    }
  }
  // not timestamps
  for (const text of ["", " ", "2023", "2023:01:02", "2023-01-02", "20230102", "11:30:00", "0000:00:00 00:00:00", "2023:01:02 03", "2023:01:02 3:04:05", "2023:01:02 03:04:05 to 04:00:00", "2023:03:12 02:30Z:00", "2023-01-02T03:04:05Z/2023-01-03T00:00:00Z", "Z", "2023:01:02Z03:04:05", "2023:01:02 03:04:05,5", "x2023:01:02 03:04:05", "2023:01:02 03:04:05x"]) {
    const v = ExifDateTime.from(text); ctx.eval(`${shard.TZ}|nodt|${text}`);
    if (v !== undefined && !(text === "2023:01:02 3:04:05" && v.hour === 3)) bad("from", text, undefined, "was accepted as " + describe(v));
  }
}

// Every single-character edit (insertion, replacement, removal) of valid texts: whatever is
// still accepted denotes the numbers that are written in it, in order, and its own zone.
const AL = [...Array.from({ length: 95 }, (_, i) => String.fromCharCode(32 + i)), "\t", "\n", "\r", "\0", "\u00a0", "\u2009", "\u2028", "\u2212", "\u0661", "\uff11", "\uff1a", "\u00e9", "\u202f", "\ufeff"];
const SMALL = [..."019: .-+ZT"];
function* edited(t, al = AL) { for (let i = 0; i <= t.length; i++) for (const c of [...al, ""]) { if (c) yield t.slice(0, i) + c + t.slice(i); if (i < t.length) yield t.slice(0, i) + c + t.slice(i + 1); } }
function zoneTail(tail) {
  const f = /^\.(\d+)/.exec(tail), ms = f ? Number((f[1] + "00").slice(0, 3)) : undefined;
  tail = tail.slice(f ? f[0].length : 0).trim();
  const q = /^(?:utc|gmt)?([+\-\u2212])(\d{1,2}):?(\d\d)?(\s.*)?$/i.exec(tail);
  return { ms, off: tail === "" ? undefined : /^(z|utc|gmt)$/i.test(tail) ? 0 : q ? (q[1] === "+" ? 1 : -1) * (Number(q[2]) * 60 + Number(q[3] ?? 0)) : /^[A-Za-z]+$/.test(tail) ? "named" : NaN };
}
const minutes = (z) => { if (z == null) return undefined; const q = /^UTC(?:([+-])(\d+)(?::(\d+))?)?$/.exec(z); return !q ? NaN : q[1] ? (q[1] === "+" ? 1 : -1) * (Number(q[2]) * 60 + Number(q[3] ?? 0)) : 0; };
function edits(ctx, M, bad, shard) {
  const KINDS = {
    ExifDateTime: [["2023:06:15 10:20:30.52", "2023-06-15T10:20:30+05:30", "2023:06:15 10:20:30Z", "2023:06:15 10:20", "2023-06-15 10:20:30.123456 -08:00"], (t) => M.ExifDateTime.from(t), (t, v) => {
      const m = /^\D*(\d+)\D+(\d+)\D+(\d+)\D+(\d+)\D+(\d+)(?:[^\d.+\-\u2212Z](\d+))?(.*)$/s.exec(t), z = m && zoneTail(m[7]);
      return m && [v.year, v.month, v.day, v.hour, v.minute, v.second].every((x, i) => x === Number(m[i + 1] ?? 0)) && v.millisecond === z.ms && (z.off === "named" || v.tzoffsetMinutes === z.off) && v.hasZone === (v.tzoffsetMinutes !== undefined);
    }],
    ExifDate: [["2023:06:15", "2023-06-15", "2023:06", "2023", "2023-6-5"], (t) => M.ExifDate.from(t), (t, v) => { const n = (t.match(/\d+/g) ?? []).map(Number); return n.length <= 3 && v.year === n[0] && v.month === n[1] && v.day === n[2]; }],
    ExifTime: [["10:20:30.52", "10:20:30+05:30", "10:20", "10:20:30Z", "10:20:30.123456 -08:00"], (t) => M.ExifTime.fromEXIF(t), (t, v) => {
      const m = /^\D*(\d+)\D+(\d+)(?:[^\d.+\-\u2212Z](\d+))?(.*)$/s.exec(t), z = m && zoneTail(m[4]);
      return m && [v.hour, v.minute, v.second].every((x, i) => x === Number(m[i + 1] ?? 0)) && v.millisecond === z.ms && (z.off === "named" || minutes(v.zone) === z.off);
    }],
  };
  for (const [name, [bases, parse, means]] of Object.entries(KINDS)) {
    const seen = new Set(), kept = [];
    const judge = (t) => {
      if (seen.has(t)) return;
      seen.add(t); ctx.eval(`${shard.TZ}|edit|${name}|${t}`); ctx.add("transitions");
      let v;
      try { v = parse(t); } catch (e) { bad(name, t, undefined, "threw " + e); return; }
      ctx.outcome(v === undefined ? "edited: rejected" : "edited: accepted");
      if (v === undefined) return;
      if (!means(t, v)) bad(name, t, undefined, "does not say what it became: " + describe(v)); else kept.push(t);
    };
    for (const b of bases) for (const t of edited(b)) judge(t);
    // a second edit to whatever is still accepted
    if (!ctx.quick && shard.TZ === HOSTS[1]) for (const t of [...kept]) for (const u of edited(t, SMALL)) judge(u);
    ctx.add("traces", kept.length);
  }
}

// the same texts as tags of a read: the result must not depend on the host zone either
async function read(ctx, M, bad, shard) {
  let cur;
  const bench = new Bench(M, () => ({ out: JSON.stringify([{ SourceFile: "/s/f.jpg", ...cur }]) }), { maxProcs: 1, backfillTimezones: false });
  for (const [y, mo, d] of EDGE) for (const [h, mi, s] of EDGET) for (const fr of s === undefined ? [""] : ["", ".052"]) for (const z of [SUFFIX[0], SUFFIX[1], ["+05:30", 330, true], ["-08:00", -480, true]]) for (const form of FORMS.slice(0, 2)) {
    if (s === undefined && z[0] !== "") continue;
    const c = { form, f: { y, mo, d, h, mi, s }, fr, z, dz: undefined }, text = dt(form, y, mo, d, h, mi, s, fr) + z[0];
    cur = { DateTimeOriginal: text, SubSecCreateDate: text, ModifyDate: text, GPSDateTime: text, DateCreated: dt(form, y, mo, d, h, mi, s, "").slice(0, 10), TimeCreated: `${p2(h)}:${p2(mi)}${s === undefined ? "" : ":" + p2(s) + fr}${z[0]}` };
    const r = await bench.one(() => bench.et.read("/s/f.jpg"));
    ctx.eval(`${shard.TZ}|read|${text}`); ctx.add("transitions");
    if (r.status !== "fulfilled") { bad("read", text, undefined, "rejected: " + r.reason); continue; }
    for (const t of ["DateTimeOriginal", "SubSecCreateDate", "ModifyDate"]) {
      const v = r.value[t];
      if (v instanceof M.ExifDateTime) { const why = judge(c, text, v); if (why) bad("read." + t, text, undefined, why); else { const w = rendered(v); if (v.toExifString() !== w[0] || zed(v.toISOString()) !== w[1]) bad("read." + t, text, undefined, `renders as ${v.toExifString()}`); } }
      else if (cal.dateOK(y, mo, d)) bad("read." + t, text, undefined, "was not recognised: " + describe(v));
      else if (v !== text) bad("read." + t, text, undefined, "impossible date became " + describe(v));
    }
    const g = r.value.GPSDateTime;
    if (cal.dateOK(y, mo, d)) { const why = judge({ ...c, dz: "UTC" }, text, g); if (why) bad("read.GPSDateTime", text, undefined, why); }
    const dc = r.value.DateCreated;
    if (cal.dateOK(y, mo, d) ? !(dc instanceof M.ExifDate && dc.year === y && dc.month === mo && dc.day === d) : dc !== cur.DateCreated) bad("read.DateCreated", cur.DateCreated, undefined, "became " + describe(dc));
    const tc = r.value.TimeCreated;
    if (!(tc instanceof M.ExifTime && tc.hour === h && tc.minute === mi && tc.second === (s ?? 0) && tc.millisecond === fracMs(fr) && tc.rawValue === cur.TimeCreated && tc.hasZone === (z[1] !== undefined))) bad("read.TimeCreated", cur.TimeCreated, undefined, "became " + describe(tc));
    ctx.add("traces");
  }
  bench.close();
}
