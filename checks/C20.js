"use strict";
// Instants, fields and offsets of timestamps through every chain of conversions, against an
// independent calendar and zone model.
const { load } = require("../lib/load.js");
const { show } = require("../lib/harness.js");
const { obs } = require("../lib/obs.js");
const cal = require("../lib/cal.js");

const FIXED = [-660, -600, -570, -540, -510, -480, -420, -360, -300, -240, -210, -180, -150, -120, -60, 0, 60, 120, 180, 210, 240, 270, 300, 330, 345, 360, 390, 420, 480, 510, 525, 540, 570, 585, 600, 630, 660, 720, 765, 780, 825, 840];
const zname = (m) => (m === 0 ? "UTC" : `UTC${m < 0 ? "-" : "+"}${Math.floor(Math.abs(m) / 60)}${m % 60 ? ":" + String(Math.abs(m) % 60).padStart(2, "0") : ""}`);
const NAMED = ["America/Los_Angeles", "Europe/London", "Australia/Lord_Howe", "Asia/Kolkata", "America/Sao_Paulo", "Pacific/Apia", "America/St_Johns", "Asia/Kathmandu", "Europe/Dublin", "Pacific/Chatham", "Africa/Casablanca"];
const offAt = (zone, ms) => { const m = /^UTC(?:([+-])(\d+)(?::(\d\d))?)?$/.exec(zone); return m ? (m[1] ? (m[1] === "-" ? -1 : 1) * (Number(m[2]) * 60 + Number(m[3] ?? 0)) : 0) : cal.zoneOffset(zone, ms); };
// (Luxon misjudges wall times of Apia near an offset change before it crossed the date line: no claim there)
const offsFor = (zone, f) => (zone === "Pacific/Apia" && f.y === 2011 ? [] : zone.includes("/") ? cal.offsetsAt(zone, f) : [offAt(zone, 0)]);
// every change of offset of a zone in some years
function transitions(zone, years) {
  const out = [];
  for (const y of years) {
    let a = cal.localMs({ y, mo: 1, d: 1, h: 0, mi: 0 });
    for (let i = 0; i < 53; i++) {
      let lo = a + i * 7 * 864e5, hi = lo + 7 * 864e5;
      if (cal.zoneOffset(zone, lo) === cal.zoneOffset(zone, hi)) continue;
      const o = cal.zoneOffset(zone, lo);
      while (hi - lo > 6e4) { const mid = Math.floor((lo + hi) / 12e4) * 6e4; if (cal.zoneOffset(zone, mid) === o) lo = mid; else hi = mid; }
      out.push(hi);
    }
  }
  return out;
}
const GENERAL = [0, -1, 1, 999, -864e5, 1e12, 1700000000123, ...[[3, 1, 1], [99, 12, 31], [100, 1, 1], [1582, 10, 15], [1900, 2, 28], [1969, 12, 31], [1999, 12, 31], [2000, 2, 29], [2004, 2, 29], [2023, 12, 31], [2024, 2, 29], [2024, 12, 31], [2100, 2, 28], [9990, 12, 31]].flatMap(([y, mo, d]) => [cal.localMs({ y, mo, d, h: 0, mi: 0 }), cal.localMs({ y, mo, d, h: 23, mi: 59, s: 59, ms: 999 }), cal.localMs({ y, mo, d, h: 12, mi: 30, s: 15, ms: 50 })])];
const AROUND = [-36e5 * 25, -36e5, -36e5 + 1, -18e5, -1000, -1, 0, 1, 999, 18e5, 36e5 - 1, 36e5, 36e5 + 6e4, 2 * 36e5, 36e5 * 25];
const fieldsOf = (e) => ({ y: e.year, mo: e.month, d: e.day, h: e.hour, mi: e.minute, s: e.second, ms: e.millisecond ?? 0 });
const isoParse = (t) => { const m = /^(-?\d{4,6})[-:](\d\d)[-:](\d\d)[T ](\d\d):(\d\d):(\d\d)(?:\.(\d{1,3}))?(Z|[+-]\d\d:\d\d)?$/.exec(t ?? ""); return m && { l: cal.localMs({ y: +m[1], mo: +m[2], d: +m[3], h: +m[4], mi: +m[5], s: +m[6], ms: m[7] ? Number(m[7].padEnd(3, "0")) : 0 }), off: m[8] === undefined ? undefined : m[8] === "Z" ? 0 : (m[8][0] === "-" ? -1 : 1) * (+m[8].slice(1, 3) * 60 + +m[8].slice(4)) }; };

// everything a zoned timestamp shows denotes one instant
function zoned(M, e, ms, zone, deep) {
  if (!(e instanceof M.ExifDateTime)) return "no timestamp: " + obs(e);
  const off = offAt(zone, ms), l = cal.localMs(fieldsOf(e));
  if (l !== ms + off * 6e4) return `fields ${show(fieldsOf(e))}, expected ${show(cal.civil(ms + off * 6e4))}`;
  if (e.tzoffsetMinutes !== off || e.zone !== zone || !e.hasZone || !e.isValid) return `offset ${e.tzoffsetMinutes} in ${e.zone}, expected ${off} in ${zone}`;
  if (e.toMillis() !== ms || e.toDate().getTime() !== ms || e.toDateTime().toMillis() !== ms || e.toEpochSeconds() !== Math.floor(ms / 1000)) return `instant ${e.toMillis()} / ${e.toDate().getTime()} / ${e.toEpochSeconds()}, expected ${ms}`;
  const i = isoParse(e.toISOString()), x = isoParse(e.toExifString());
  for (const [k, p] of [["ISO", i], ["EXIF", x], ["toString", isoParse(e.toString())]]) if (!p || p.l !== l || p.off !== off) return `${k} text ${k === "EXIF" ? e.toExifString() : e.toISOString()} for ${show(fieldsOf(e))} at ${off}`;
  if (!deep) return;
  const noOff = isoParse(e.toISOString({ includeOffset: false }));
  if (!noOff || noOff.l !== l || noOff.off !== undefined) return `ISO without offset is ${e.toISOString({ includeOffset: false })}`;
  const j = M.parseJSON(JSON.stringify(e));
  if (!(j instanceof M.ExifDateTime) || j.toMillis() !== ms || j.toISOString() !== e.toISOString()) return `revived from JSON as ${obs(j)}`;
  for (const t of [e.toISOString(), e.toExifString()]) { const p = M.ExifDateTime.from(t); if (!p || p.toMillis() !== ms || cal.localMs(fieldsOf(p)) !== l || p.tzoffsetMinutes !== off) return `${t} read back as ${obs(p)}`; }
  const d = M.ExifDateTime.fromDateTime(e.toDateTime());
  if (!d || d.toMillis() !== ms || d.zone !== zone || d.tzoffsetMinutes !== off || cal.localMs(fieldsOf(d)) !== l) return `through DateTime: ${obs(d)}`;
}
const EXACT = [{ milliseconds: 1 }, { seconds: 1 }, { minutes: 30 }, { hours: 1 }, { hours: -1 }, { hours: 25 }, { milliseconds: -1 }, { hours: 2, minutes: 59, seconds: 59, milliseconds: 999 }];
const exactMs = (d) => (d.hours ?? 0) * 36e5 + (d.minutes ?? 0) * 6e4 + (d.seconds ?? 0) * 1000 + (d.milliseconds ?? 0);
const CALENDAR = [{ days: 1 }, { days: -1 }, { months: 1 }, { months: -1 }, { years: 1 }, { years: 4 }, { weeks: 1 }];
function addCal(f, d) {
  let m = f.y * 12 + f.mo - 1 + (d.years ?? 0) * 12 + (d.months ?? 0);
  const y = Math.floor(m / 12), mo = (m % 12) + 1, day = Math.min(f.d, cal.dim(y, mo));
  return cal.localMs({ ...f, y, mo, d: day }) + ((d.days ?? 0) + (d.weeks ?? 0) * 7) * 864e5;
}

module.exports = {
  id: "C20", level: "model_checking",
  rule: "distinct = distinct (instant or fields, conversion chain) whose every rendering was compared with the calendar and zone model",
  bounds: (t) => ({ fixedOffsets: FIXED.length, namedZones: NAMED, instants: "general boundary instants, and 15 instants around every offset change of every named zone in 4 years", chains: "zone -> zone -> zone -> back", durations: [...EXACT, ...CALENDAR], hostZones: ["UTC", "America/Los_Angeles", "Australia/Lord_Howe"] }),
  assumptions: ["wall times of Pacific/Apia in 2011, which Luxon misjudges near an offset change, are only checked for self-consistency", "years 0 and 1 are ExifTool's null dates: instants are explored from year 3 on", "named zones' rules are those of the JavaScript engine", "renderings show whole minutes of offset: named zones are explored from 1970 on"],
  shards() {
    const s = [];
    for (const TZ of ["UTC", "America/Los_Angeles", "Australia/Lord_Howe"]) for (const part of ["general", "dst", "unset", "time"]) { const of = part === "dst" || part === "general" ? 2 : 1; for (let i = 0; i < of; i++) s.push({ part, TZ, i, of, env: { TZ } }); }
    return s;
  },
  async run(shard, ctx) {
    const M = load(ctx.dist), X = M.ExifDateTime;
    process.removeAllListeners("beforeExit"); process.removeAllListeners("exit");
    let n = 0;
    const mine = () => n++ % shard.of === shard.i;
    const one = (key, f) => {
      ctx.eval(shard.TZ + " " + key); ctx.add("transitions"); ctx.add("traces");
      let why;
      try { why = f(); } catch (e) { why = "threw " + e.message; }
      if (why) ctx.violate(`${key} (host ${shard.TZ})`, `${key} (host ${shard.TZ}): ${why}`, { key });
    };
    const chain = (ms, zs, deep) => one(`${ms} ${zs.join(" ")}`, () => {
      const opts = { zone: zs[0], rawValue: "raw" }, e0 = X.fromMillis(ms, opts);
      let e = e0, why = zoned(M, e, ms, zs[0], deep);
      if (show(opts) !== show({ zone: zs[0], rawValue: "raw" })) return "fromMillis changed its options";
      if (why) return `in ${zs[0]}: ${why}`;
      for (const z of zs.slice(1)) { e = e.setZone(z); why = zoned(M, e, ms, z, deep); if (why) return `setZone(${z}): ${why}`; if (e.rawValue !== "raw") return "the original text was lost"; }
      e = e.setZone(zs[0]);
      why = zoned(M, e, ms, zs[0], true);
      if (why) return `back in ${zs[0]}: ${why}`;
      if (show(fieldsOf(e)) !== show(fieldsOf(e0))) return `back in ${zs[0]} the fields are ${show(fieldsOf(e))}`;
      if (e.toISOString() !== e0.toISOString() || e.toExifString() !== e0.toExifString()) return `back in ${zs[0]} it reads ${e.toISOString()}, not ${e0.toISOString()}`;
      if ((why = zoned(M, e0, ms, zs[0]))) return `the converted value itself changed: ${why}`;
    });
    const arith = (ms, zone) => {
      for (const d of EXACT) one(`${ms} ${zone} plus ${show(d)}`, () => zoned(M, X.fromMillis(ms, { zone }).plus(d), ms + exactMs(d), zone, false));
      for (const d of CALENDAR) one(`${ms} ${zone} plus ${show(d)}`, () => {
        const e = X.fromMillis(ms, { zone }), f = fieldsOf(e), l = addCal(f, d), g = cal.civil(l), os = offsFor(zone, g), p = e.plus(d);
        if (!(p instanceof M.ExifDateTime)) return "gave " + obs(p);
        if (os.length) { if (cal.localMs(fieldsOf(p)) !== l || !os.includes(p.tzoffsetMinutes)) return `gave ${p.toISOString()}, expected ${show(g)} at ${os}`; }
        return zoned(M, p, cal.localMs(fieldsOf(p)) - p.tzoffsetMinutes * 6e4, zone);
      });
    };
    // the same fields read in another zone
    const keep = (ms, z, z2) => one(`${ms} ${z} keepLocalTime ${z2}`, () => {
      const e = X.fromMillis(ms, { zone: z }), f = fieldsOf(e), os = offsFor(z2, f), k = e.setZone(z2, { keepLocalTime: true });
      if (!(k instanceof M.ExifDateTime)) return "gave " + obs(k);
      if (os.length && (cal.localMs(fieldsOf(k)) !== cal.localMs(f) || !os.includes(k.tzoffsetMinutes))) return `gave ${k.toISOString()} for ${show(f)}`;
      if (os.length && e.toEpochSeconds(z2) !== Math.floor((cal.localMs(f) - os[0] * 6e4) / 1000) && !os.some((o) => e.toEpochSeconds(z2) === Math.floor((cal.localMs(f) - o * 6e4) / 1000))) return `toEpochSeconds(${z2}) is ${e.toEpochSeconds(z2)}`;
      return zoned(M, k, cal.localMs(fieldsOf(k)) - k.tzoffsetMinutes * 6e4, z2);
    });
    const YEARS = [2011, 2018, 2023, 2024];
    if (shard.part === "general") {
      const Z = FIXED.map(zname);
      for (const ms of GENERAL) for (const z of Z) {
        if (!mine()) continue;
        for (const z2 of ctx.quick ? ["UTC", "UTC-11", "UTC+14", "UTC+5:45"] : Z) chain(ms, [z, z2], true);
        arith(ms, z);
        keep(ms, z, "UTC+3"); keep(ms, z, "UTC-9:30");
      }
      for (const ms of GENERAL.filter((x) => x >= 0)) for (const z of NAMED) { if (!mine()) continue; for (const z2 of ["UTC", "UTC+14", ...NAMED.slice(0, ctx.quick ? 4 : 99)]) { chain(ms, [z, z2], true); keep(ms, z, z2); } arith(ms, z); }
    } else if (shard.part === "dst") {
      for (const z of NAMED) for (const t of transitions(z, YEARS)) for (const a of AROUND) {
        const ms = t + a;
        if (!mine()) continue;
        for (const z2 of ["UTC", "UTC-3:30", ...NAMED.slice(0, ctx.quick ? 5 : 99)]) { chain(ms, [z, z2]); chain(ms, [z2, z]); keep(ms, z2, z); if (!ctx.quick) for (const z3 of NAMED.slice(0, 4)) chain(ms, [z, z2, z3]); }
        chain(ms, ["UTC+1", z, "Europe/London"]);
        arith(ms, z);
        // matching another timestamp's zone keeps the instant when it is already close to it
        one(`${ms} match ${z}`, () => { const target = X.fromMillis(ms, { zone: z }), e = X.fromMillis(ms + 6e4, { zone: "UTC" }).maybeMatchZone(target); return zoned(M, e, ms + 6e4, z); });
      }
      one("transitions found", () => (NAMED.flatMap((z) => transitions(z, YEARS)).length < 40 ? "too few offset changes found" : undefined));
    } else if (shard.part === "unset") {
      const texts = [];
      const LOCALS = [...GENERAL.filter((x) => x > -62135596800000)];
      for (const z of NAMED) for (const t of transitions(z, [2023, 2024])) for (const a of [-36e5, -1000, 0, 18e5, 36e5]) LOCALS.push(t + a + cal.zoneOffset(z, t - 1) * 6e4);
      for (const l of LOCALS) {
        const f = cal.civil(l), p = (x, k = 2) => String(x).padStart(k, "0");
        texts.push([f, `${p(f.y, 4)}:${p(f.mo)}:${p(f.d)} ${p(f.h)}:${p(f.mi)}:${p(f.s)}${f.ms ? "." + p(f.ms, 3) : ""}`]);
      }
      for (const [f, text] of texts) {
        const l = cal.localMs(f);
        one(`unset ${text}`, () => {
          const e = X.from(text);
          if (!e || e.hasZone || e.tzoffsetMinutes !== undefined || cal.localMs(fieldsOf(e)) !== l) return `read as ${obs(e)}`;
          for (const t of [e.toISOString(), e.toExifString(), e.toString()]) { const q = isoParse(t); if (!q || q.l !== l || q.off !== undefined) return `rendered as ${t}`; }
        });
        for (const z of [...(f.y > 1970 ? NAMED : []), "UTC", "UTC+5:45", "UTC-11"]) one(`unset ${text} in ${z}`, () => {
          const os = offsFor(z, f), k = X.from(text).setZone(z);
          if (!(k instanceof M.ExifDateTime)) return "gave " + obs(k);
          if (os.length && (cal.localMs(fieldsOf(k)) !== l || !os.includes(k.tzoffsetMinutes))) return `became ${k.toISOString()}`;
          if (os.length && !os.some((o) => X.from(text).toEpochSeconds(z) === Math.floor((l - o * 6e4) / 1000))) return `toEpochSeconds(${z}) is ${X.from(text).toEpochSeconds(z)}`;
          return zoned(M, k, cal.localMs(fieldsOf(k)) - k.tzoffsetMinutes * 6e4, z);
        });
        for (const d of [...EXACT, ...CALENDAR]) one(`unset ${text} plus ${show(d)}`, () => {
          const e = X.from(text), g = e.plus(d), want = d.days || d.months || d.years || d.weeks ? addCal(f, d) : l + exactMs(d);
          if (!(g instanceof M.ExifDateTime) || g.hasZone || cal.localMs(fieldsOf(g)) !== want) return `became ${g && g.toISOString()}, expected ${show(cal.civil(want))}`;
          const q = isoParse(g.toISOString());
          if (!q || q.l !== want || q.off !== undefined) return `rendered as ${g.toISOString()}`;
        });
        one(`date ${text}`, () => {
          const D = new M.ExifDate(f.y, f.mo, f.d), d = D.toDate();
          if (d.getFullYear() !== f.y || d.getMonth() !== f.mo - 1 || d.getDate() !== f.d) return `toDate is ${d}`;
          const utc = cal.localMs({ ...f, h: 0, mi: 0, s: 0, ms: 0 });
          if (D.toMillis(0) !== utc || D.toMillis() !== utc + 12 * 36e5 || D.toMillis(5) !== utc + 5) return `toMillis is ${D.toMillis()}`;
          const Y = new M.ExifDate(f.y), YM = new M.ExifDate(f.y, f.mo);
          if (Y.toMillis(0) !== cal.localMs({ y: f.y, mo: 1, d: 1, h: 0, mi: 0 }) || YM.toMillis(0) !== cal.localMs({ y: f.y, mo: f.mo, d: 1, h: 0, mi: 0 })) return `partial dates: ${Y.toMillis(0)} ${YM.toMillis(0)}`;
          if (Y.toDate().getFullYear() !== f.y || YM.toDate().getMonth() !== f.mo - 1) return "partial dates: " + Y.toDate() + YM.toDate();
        });
      }
      // values made without a zone from an instant show the host's local time
      for (const ms of GENERAL.filter((x) => x >= 0)) for (const opts of [undefined, {}, { zone: undefined }, { zone: M.UnsetZoneName }, { zone: M.UnsetZone }]) one(`local ${ms} ${opts && String(opts.zone?.name ?? opts.zone)}`, () => {
        const e = opts === undefined ? X.fromMillis(ms) : X.fromMillis(ms, opts), o = cal.zoneOffset(shard.TZ, ms);
        if (e.hasZone || cal.localMs(fieldsOf(e)) !== ms + o * 6e4) return "became " + obs(e);
        
      });
      one("options object kept", () => { const o = { zone: undefined, rawValue: "x" }; X.fromMillis(0, o); return "zone" in o && o.rawValue === "x" ? undefined : "fromMillis changed its options"; });
    } else {
      const NOWS = [cal.localMs({ y: 2024, mo: 3, d: 10, h: 18, mi: 0 }), cal.localMs({ y: 2024, mo: 10, d: 6, h: 3, mi: 0 }), cal.localMs({ y: 2024, mo: 7, d: 1, h: 12, mi: 0 })];
      const realNow = Date.now;
      const T = [[0, 0, 0], [1, 30, 0], [2, 0, 0], [2, 15, 30], [2, 59, 59], [3, 0, 0], [12, 0, 0], [23, 59, 59]];
      const p = (x, k = 2) => String(x).padStart(k, "0");
      const sx = (o) => (o === 0 ? "Z" : `${o < 0 ? "-" : "+"}${p(Math.floor(Math.abs(o) / 60))}:${p(Math.abs(o) % 60)}`);
      try {
        for (const now of NOWS) {
          Date.now = () => now;
          for (const [h, mi, s] of T) for (const ms of ["", ".5", ".123"]) for (const z of [undefined, ...FIXED]) for (const z2 of FIXED) one(`time ${now} ${h}:${mi}:${s}${ms} ${z} in ${z2}`, () => {
            const e = M.ExifTime.fromEXIF(`${p(h)}:${p(mi)}:${p(s)}${ms}${z === undefined ? "" : sx(z)}`), k = e.setZone(zname(z2));
            const t0 = ((h * 60 + mi) * 60 + s) * 1000 + (ms ? Number(ms.slice(1).padEnd(3, "0")) : 0), t = (x) => ((x.hour * 60 + x.minute) * 60 + x.second) * 1000 + (x.millisecond ?? 0);
            if (t(e) !== t0 || e.zone !== (z === undefined ? undefined : zname(z))) return "read as " + obs(e);
            const want = z === undefined ? t0 : (((t0 + (z2 - z) * 6e4) % 864e5) + 864e5) % 864e5;
            if (!k || t(k) !== want || k.zone !== zname(z2) || !k.hasZone) return "became " + obs(k);
            if (!k.toString().startsWith(`${p(k.hour)}:${p(k.minute)}:${p(k.second)}`) || !(k.toString().endsWith(sx(z2)) || (z2 === 0 && /(?:Z|\+00:00)$/.test(k.toString())))) return "rendered as " + k.toString();
            const b = M.ExifTime.fromEXIF(k.toString());
            if (!b || t(b) !== want || b.zone !== zname(z2)) return `${k.toString()} read back as ${obs(b)}`;
            if (z !== undefined) { const back = k.setZone(zname(z)); if (t(back) !== t0 || back.zone !== zname(z)) return "back: " + obs(back); }
          });
        }
      } finally { Date.now = realNow; }
    }
    ctx.sample({ ...shard, env: undefined, iso: X.fromMillis(1700000000123, { zone: "Australia/Lord_Howe" }).toISOString() });
  },
};
