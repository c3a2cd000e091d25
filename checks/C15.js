"use strict";
// Zone names and offsets: every minute of -16:00..+16:00 in every spelling, under every offset setting.
const { load } = require("../lib/load.js");
const { show } = require("../lib/harness.js");
const cal = require("../lib/cal.js");

const REG = [-660, -600, -570, -540, -510, -480, -420, -360, -300, -240, -210, -180, -150, -120, -60, 0, 60, 120, 180, 210, 240, 270, 300, 330, 345, 360, 390, 420, 480, 510, 525, 540, 570, 585, 600, 630, 660, 720, 765, 780, 825, 840];
const ARCH = [-630, -270, -44, -(25 + 21 / 60), 20, 30, 84, 90, 150, 291, 340, 440, 450];
const SETS = []; for (const archaic of [false, true]) for (const baker of [false, true]) SETS.push({ archaic, baker });
const sup = (s) => [...REG, ...(s.archaic ? ARCH : []), ...(s.baker ? [-720] : [])];
const p2 = (n) => String(n).padStart(2, "0");
function spellings(o) {
  const sg = o < 0 ? "-" : "+", a = Math.abs(o), h = Math.floor(a / 60), m = Math.floor(a % 60 + 1e-9), s = Math.round((a % 1) * 60), out = [];
  if (s) return [[`${sg}${p2(h)}:${p2(m)}:${p2(s)}`, true]];
  for (const sign of o < 0 ? ["-", "\u2212"] : ["+"]) for (const pre of ["", "UTC", "GMT"]) {
    out.push([`${pre}${sign}${p2(h)}:${p2(m)}`, sign !== "\u2212" || pre === ""]);
    if (h < 10) out.push([`${pre}${sign}${h}:${p2(m)}`, pre === "UTC" && sign === "-"]);
    out.push([`${pre}${sign}${p2(h)}${p2(m)}`, false]);
    if (m === 0) { out.push([`${pre}${sign}${p2(h)}`, false]); out.push([`${pre}${sign}${h}`, pre === "UTC" && sign !== "\u2212"]); }
  }
  out.push([`utc${sg}${h}:${p2(m)}`, false], [`gmt${sg}${p2(h)}:${p2(m)}`, false], [` ${sg}${p2(h)}:${p2(m)} `, false], ...(o > -720 && o <= 840 ? [[`Etc/GMT${sg === "+" ? "-" : "+"}${h}`, false]] : []));
  return m === 0 ? out : out.filter(([x]) => !x.startsWith("Etc/"));
}
const BADSPELL = ["+08:60", "-05:99", "+0560", "UTC+08:60", "+8:5", "+008:00", "+08:0", "08:00", "8", "+", "-", "UTC+", "+08:00:60", "+24:00", "-25:00", "+99:99", "+08:00x", "Zurich", "Europe/Z\u00fcrich", "Zed", "XYZ", "Not/AZone", "America/Nowhere", "UTCX", "GMTX", "ZZ", "Local", "system", "DEFAULT", "bogus", "", " ", "nil", "+\u0661:00", "UTC+5:30:30", "UTC 5", "+ 5"];
const OKZERO = ["Z", "UTC", "GMT", "+00:00", "-00:00", "+0", "UTC+0", "Etc/UTC", "Zulu", "0"];
const ABBR = { NST: -210, NDT: -150, ADT: -180, EST: -300, EDT: -240, CDT: -300, MST: -420, MDT: -360, PST: -480, PDT: -420, AKST: -540, AKDT: -480, HST: -600, WET: 0, WEST: 60, CET: 60, CEST: 120, EET: 120, EEST: 180, MSK: 180, TRT: 180, WAT: 60, CAT: 120, SAST: 120, EAT: 180, IRST: 210, IRDT: 270, AFT: 270, PKT: 300, NPT: 345, MMT: 390, ICT: 420, SGT: 480, HKT: 480, PHT: 480, JST: 540, KST: 540, AWST: 480, ACST: 570, ACDT: 630, AEST: 600, AEDT: 660, NZST: 720, NZDT: 780, CHAST: 765, CHADT: 825, COT: -300, PET: -300, VET: -240, BOT: -240, CLT: -240, CLST: -180, ART: -180, BRT: -180, UYT: -180, CVT: -60, AZOT: -60, MUT: 240, SCT: 240 };
const AMBIG = ["CST", "IST", "BST", "AST", "GST", "AMT", "SST", "WST", "AM", "PM", "XYZ", "DST"];

module.exports = {
  id: "C15", level: "model_checking",
  rule: "distinct = distinct (settings, function, input) evaluations compared with the offset tables",
  bounds: (t) => ({ offsets: "every minute of -16:00..+16:00, and the archaic offset with seconds", spellingsPerOffset: "up to 20", settings: SETS, edits: "every one-character edit of 10 spellings", differences: t === "quick" ? "every minute of -1500..+1500" : "every 15 s of -1500..+1500 minutes", tolerances: [0, 1, 14.5, 15, 30, 60], namedZones: "every zone of the engine at 6 instants", abbreviations: Object.keys(ABBR).length }),
  assumptions: ["the tables of supported offsets are those documented (ValidTimezoneOffsets, ArchaicTimezoneOffsets, Baker Island)"],
  shards() { return [...SETS.map((s, i) => ({ part: "offsets", i })), ...SETS.map((s, i) => ({ part: "infer", i })), { part: "iana" }, { part: "edits" }, { part: "text" }]; },
  async run(shard, ctx) {
    const M = load(ctx.dist), S = M.Settings;
    const set = (s) => { S.reset(); S.allowArchaicTimezoneOffsets.value = s.archaic; S.allowBakerIslandTime.value = s.baker; };
    const ev = (k) => { ctx.eval(k); ctx.add("transitions"); };
    const zoff = (z) => (z == null ? undefined : z.offset(Date.UTC(2023, 0, 15)));
    const tag = (s) => `${s.archaic ? "archaic " : ""}${s.baker ? "baker " : ""}`;
    // how each entry point reads a spelling: minutes, or undefined when rejected
    const READ = {
      normalizeZone: (t) => zoff(M.normalizeZone(t)),
      extractZone: (t) => { const r = M.extractZone(t); if (!r) return; if (r.zone !== r.tz) throw new Error(`zone ${r.zone} and tz ${r.tz} differ`); const o = zoff(M.normalizeZone(r.tz)); if (o === undefined) throw new Error(`zone ${r.tz} is not usable`); return o; },
      extractTzOffsetFromTags: (t) => { const r = M.extractTzOffsetFromTags({ OffsetTimeOriginal: t }); if (!r) return; if (r.src !== "OffsetTimeOriginal") throw new Error("source " + r.src); return zoff(M.normalizeZone(r.tz)) ?? NaN; },
      timestamp: (t) => { const v = M.ExifDateTime.from("2023:06:15 12:00:00" + t); return v?.hasZone ? (v.hour === 12 ? v.tzoffsetMinutes : NaN) : undefined; },
    };
    if (shard.part === "offsets") {
      const s = SETS[shard.i]; set(s);
      const ok = sup(s), isSup = (o) => ok.some((x) => x === o), T = tag(s);
      const offs = []; for (let o = -960; o <= 960; o++) offs.push(o);
      for (const a of ARCH) if (!Number.isInteger(a)) offs.push(a);
      for (const o of offs) {
        const seconds = !Number.isInteger(o), bad = (m, msg) => { const key = `${T}${m} ${o}`; (seconds ? ctx.known(`archaic-seconds ${s.archaic}`, `${key}: ${msg}`, { o, s }) : ctx.violate(key, `${T}offset ${o} min: ${msg}`, { o, s })); };
        ev(`${T}num ${o}`);
        if (M.validTzOffsetMinutes(o) !== isSup(o)) bad("valid", `validTzOffsetMinutes gives ${M.validTzOffsetMinutes(o)}`);
        const name = M.offsetMinutesToZoneName(o), nz = M.normalizeZone(o);
        if (!isSup(o)) { if (name !== undefined) bad("name", `unsupported but named ${name}`); if (nz !== undefined) bad("norm", `unsupported but normalised to ${nz.name}`); }
        else {
          ctx.add("traces");
          if (typeof name !== "string") bad("name", "supported but has no name");
          else {
            const z = M.normalizeZone(name), short = M.zoneToShortOffset(name);
            if (zoff(z) !== o) bad("back", `name ${name} denotes ${zoff(z)}`);
            else {
              if (z.name !== name && !(o === 0)) bad("back", `name ${name} normalises to ${z.name}`);
              if (M.parseTimezoneOffsetToMinutes(name) !== o) bad("back", `name ${name} parses as ${M.parseTimezoneOffsetToMinutes(name)} min`);
              if (M.parseTimezoneOffsetToMinutes(short) !== o) bad("short", `short form ${short} parses as ${M.parseTimezoneOffsetToMinutes(short)}`);
              if (M.zoneToShortOffset(o) !== short || M.zoneToShortOffset(z) !== short) bad("short", `short forms ${M.zoneToShortOffset(o)} and ${short} differ`);
              if (zoff(nz) !== o || M.extractZone(name)?.tz !== name || M.extractZone(o / 60)?.tz !== name) bad("norm", `numeric form denotes ${zoff(nz)}, hours ${show(M.extractZone(o / 60))}, extracted ${show(M.extractZone(name))}`);
              if (!M.isZone(z) || !M.isZoneValid(z) || M.isZoneUnset(z) || M.isUTC(z) !== (o === 0) || M.isUTC(name) !== (o === 0)) bad("pred", "zone predicates disagree");
              for (const x of ok) if (M.equivalentZones(name, x) !== (x === o) || M.equivalentZones(x, z) !== (x === o)) bad("equiv", `equivalentZones(${name}, ${x}) is ${M.equivalentZones(name, x)}`);
            }
          }
        }
        for (const [text, canonical] of spellings(o)) {
          for (const [fn, f] of Object.entries(READ)) {
            if (fn === "timestamp" && (/^Etc/.test(text) || text.startsWith(" "))) continue;
            ev(`${T}${fn} ${text}`);
            let r; try { r = f(text); } catch (e) { bad(fn, `${fn}(${show(text)}): ${e.message}`); continue; }
            if (r === undefined) { if (isSup(o) && canonical && !(fn === "timestamp" && /^GMT/.test(text))) bad(fn, `${fn}(${show(text)}) was rejected`); }
            else if (!isSup(o)) bad(fn, `${fn}(${show(text)}) accepted an unsupported offset as ${r}`);
            else if (r !== o) bad(fn, `${fn}(${show(text)}) denotes ${r}`);
          }
          const pm = M.parseTimezoneOffsetToMinutes(text);
          if (pm !== undefined && Math.abs(pm - o) > 1e-9) bad("parse", `parseTimezoneOffsetToMinutes(${show(text)}) gives ${pm}`);
          if (pm === undefined && isSup(o) && canonical && !/^utc|^gmt|^Etc| /.test(text)) bad("parse", `parseTimezoneOffsetToMinutes(${show(text)}) rejected it`);
          const mm = M.parseTimezoneOffsetMatch(new RegExp("^" + M.TimezoneOffsetRE.source + "$").exec(text));
          if (!seconds && mm !== undefined && mm.offsetMinutes !== o) bad("match", `parseTimezoneOffsetMatch(${show(text)}) gives ${mm.offsetMinutes}`);
          if (isSup(o) && o !== 0 && /^[+-]\d\d:\d\d$/.test(text) && !seconds && mm?.offsetMinutes !== o) bad("match", `parseTimezoneOffsetMatch(${show(text)}) gives ${show(mm)}`);
        }
      }
    } else if (shard.part === "infer") {
      const s = SETS[shard.i]; set(s);
      const ok = sup(s), T = tag(s), step = ctx.quick ? 1 : 0.25;
      const best = (d, tol) => { let m = Infinity; for (const o of ok) m = Math.min(m, Math.abs(o - d)); return m <= tol ? m : undefined; };
      for (const [tol, how] of [[30, "default"], [0, "arg"], [1, "arg"], [14.5, "arg"], [15, "setting"], [60, "setting"], [15, "arg"]]) {
        S.maxValidOffsetMinutes.value = how === "setting" ? tol : 30;
        for (let d = -1500; d <= 1500; d += step) {
          ev(`${T}infer ${tol} ${how} ${d}`); ctx.add("traces");
          const r = how === "arg" ? M.inferLikelyOffsetMinutes(d, tol) : M.inferLikelyOffsetMinutes(d), m = best(d, tol);
          if (m === undefined ? r !== undefined : !(ok.includes(r) && Math.abs(Math.abs(r - d) - m) < 1e-9)) ctx.violate(`${T}infer ${tol} ${how} ${d}`, `a difference of ${d} min with tolerance ${tol} (${how}) gave ${r}; nearest supported offset is ${m} min away`, { d, tol });
        }
      }
      S.maxValidOffsetMinutes.reset();
      if (M.inferLikelyOffsetMinutes(undefined) !== undefined) ctx.violate("infer undefined", "no difference gave an offset", {});
      // the same through timestamps
      const utc = Date.UTC(2023, 5, 15, 12, 0, 0), fmt = (ms) => { const c = cal.civil(ms); return `${c.y}:${p2(c.mo)}:${p2(c.d)} ${p2(c.h)}:${p2(c.mi)}:${p2(c.s)}`; };
      for (let d = -1500; d <= 1500; d += 1) for (const [src, mk] of [["GPSDateTime", (t) => ({ GPSDateTime: t + "Z" })], ["DateTimeUTC", (t) => ({ DateTimeUTC: t })], ["GPSDateTimeStamp", (t) => ({ GPSDateStamp: t.slice(0, 10), GPSTimeStamp: t.slice(11) })]]) {
        ev(`${T}utc ${src} ${d}`);
        const r = M.extractTzOffsetFromUTCOffset({ DateTimeOriginal: fmt(utc + d * 6e4), ...mk(fmt(utc)) }), m = best(d, 30), o = r && zoff(M.normalizeZone(r.tz));
        const key = `${T}utc ${src} ${d}`;
        if (m === undefined ? r !== undefined : !(ok.includes(o) && Math.abs(Math.abs(o - d) - m) < 1e-9 && r.zone === r.tz)) {
          if (r && ok.some((x) => !Number.isInteger(x) && Math.abs(x - d) === m)) ctx.known(`archaic-seconds ${s.archaic}`, `${key}: ${show(r)}`, { d });
          else ctx.violate(key, `local time ${d} min ahead of ${src} gave ${show(r)}; nearest supported offset is ${m} min away`, { d });
        }
        else if (r && !(r.src.includes("DateTimeOriginal") && r.src.includes(src))) ctx.violate(key, `source ${r.src}`, { d });
      }
    } else if (shard.part === "edits") {
      // every single-character edit of accepted spellings: what is still accepted states its offset
      const AL = [...Array.from({ length: 95 }, (_, i) => String.fromCharCode(32 + i)), "\t", "\n", "\0", "\u00a0", "\u2212", "\u0661", "\uff11", "\u00e9", "\ufeff", ""], T = Date.UTC(2023, 0, 15);
      const states = (t) => {
        t = t.trim();
        if (/^(z|utc|gmt|zulu|0)$/i.test(t)) return 0;
        const q = /^(?:utc|gmt|z)?([+\-\u2212])(\d{1,2})(?::?(\d\d))?(?::(\d\d))?$/i.exec(t);
        if (q) { const o = (q[1] === "+" ? 1 : -1) * (Number(q[2]) * 60 + Number(q[3] ?? 0)); return Number(q[3] ?? 0) < 60 && REG.includes(o) && !Number(q[4] ?? 0) ? o + 0 : undefined; }
        try { return cal.zoneOffset(t, T); } catch { return undefined; }
      };
      S.reset();
      for (const b of ["+05:30", "-0800", "UTC-8", "GMT+05:45", "America/New_York", "Asia/Ust-Nera", "Z", "UTC", "Etc/GMT+5", "Europe/London"]) for (let i = 0; i <= b.length; i++) for (const c of AL) for (const t of i < b.length ? [b.slice(0, i) + c + b.slice(i + 1), b.slice(0, i) + c + b.slice(i)] : [b + c]) {
        ev("edit " + t);
        let r; try { r = zoff(M.normalizeZone(t)); } catch (e) { r = e.message; }
        ctx.outcome(r === undefined ? "edited: rejected" : "edited: accepted");
        if (r !== undefined && r !== states(t)) ctx.violate("edit " + t, `normalizeZone(${show(t)}) gives ${r}, but that text states ${states(t)}`, { t });
        else if (r !== undefined) ctx.add("traces");
      }
    } else if (shard.part === "iana") {
      S.reset();
      const names = new Set([...Intl.supportedValuesOf("timeZone"), "Europe/Kiev", "America/Port-au-Prince", "Africa/Porto-Novo", "America/Blanc-Sablon", "Asia/Ust-Nera", "Etc/UTC", "GB", "WET", "EST5EDT", "Japan", "America/Argentina/Buenos_Aires", "America/North_Dakota/New_Salem", "Asia/Calcutta", "Africa/Asmera", "America/Buenos_Aires", "America/Indianapolis", "America/Knox_IN", "Antarctica/South_Pole", "Asia/Rangoon", "Asia/Saigon", "Asia/Ujung_Pandang", "Atlantic/Faeroe", "Australia/ACT", "Australia/NSW", "Australia/LHI", "Brazil/DeNoronha", "Chile/EasterIsland", "Etc/GMT0", "Etc/Greenwich", "Etc/UCT", "Etc/Universal", "Etc/Zulu", "GB-Eire", "Hongkong", "Iceland", "Jamaica", "Kwajalein", "MST7MDT", "Mexico/BajaNorte", "NZ", "NZ-CHAT", "Navajo", "PRC", "PST8PDT", "Pacific/Yap", "Pacific/Ponape", "ROC", "ROK", "Singapore", "Turkey", "US/Pacific", "US/East-Indiana", "US/Hawaii", "W-SU", "Canada/Newfoundland", "Arctic/Longyearbyen", "America/Kentucky/Monticello", ...Array.from({ length: 12 }, (_, i) => `Etc/GMT+${i}`), ...Array.from({ length: 15 }, (_, i) => `Etc/GMT-${i}`)]);
      const at = [Date.UTC(2023, 0, 15), Date.UTC(2023, 6, 15), Date.UTC(2024, 2, 10, 10, 30), Date.UTC(2024, 10, 3, 9, 30), Date.UTC(1990, 5, 1), 0];
      const off = new Map();
      for (const n of names) {
        ev("iana " + n);
        const z = M.normalizeZone(n), x = M.extractZone(n);
        if (!z || !M.isZone(z) || !M.isZoneValid(z)) { ctx.violate("iana " + n, `zone ${n} was rejected`, { n }); continue; }
        if (!x || x.zone !== x.tz) { ctx.violate("iana " + n, `extractZone(${n}) gives ${show(x)}`, { n }); continue; }
        const xz = M.normalizeZone(x.tz), es = at.map((t) => cal.zoneOffset(n, t));
        off.set(n, es);
        at.forEach((t, i) => {
          ctx.add("traces");
          if (Math.abs(z.offset(t) - es[i]) > 1 || Math.abs(xz.offset(t) - es[i]) > 1) ctx.violate(`iana ${n} ${t}`, `${n} has offset ${es[i]} at ${new Date(t).toISOString()}, not ${z.offset(t)} / ${xz.offset(t)}`, { n });
          const short = M.zoneToShortOffset(n, t);
          if (REG.includes(es[i]) && M.parseTimezoneOffsetToMinutes(short) !== es[i]) ctx.violate(`iana short ${n}`, `short offset of ${n} is ${short}`, { n });
        });
        if (!M.equivalentZones(n, n)) ctx.violate("iana self " + n, `${n} is not equivalent to itself`, { n });
      }
      const some = [...off.keys()];
      for (const a of some) for (const b of some) at.slice(0, 4).forEach((t, i) => { ev(`equiv ${a} ${b} ${t}`); const same = off.get(a)[i] === off.get(b)[i]; if (M.equivalentZones(a, b, t) !== same) ctx.violate(`equiv ${a} ${b} ${t}`, `equivalentZones(${a}, ${b}) at ${new Date(t).toISOString()} is ${!same}`, { a, b }); });
    } else {
      for (const s of SETS) {
        set(s);
        for (const t of BADSPELL) for (const [fn, f] of Object.entries(READ)) {
          if (fn === "timestamp") continue;
          ev(`${tag(s)}${fn} bad ${t}`);
          let r; try { r = f(t); } catch (e) { r = e.message; }
          if (r !== undefined) ctx.violate(`${fn} bad ${t}`, `${fn}(${show(t)}) accepted it as ${r}`, { t });
        }
        for (const t of OKZERO) for (const fn of ["normalizeZone", "extractZone"]) { ev(`${tag(s)}${fn} zero ${t}`); let r; try { r = READ[fn](t); } catch (e) { r = e.message; } if (r !== 0) ctx.violate(`${fn} zero ${t}`, `${fn}(${show(t)}) gives ${r}`, { t }); }
        for (const t of [undefined, null, true, {}, [], NaN, Infinity, M.UnsetZone, M.UnsetZoneOffsetMinutes, M.UnsetZoneName, new Date(0)]) { ev(`${tag(s)} odd ${String(t)}`); if (M.normalizeZone(t) !== undefined) ctx.violate("odd " + show(t), `normalizeZone(${show(t)}) gives ${M.normalizeZone(t)?.name}`, {}); if (t !== M.UnsetZone && typeof t !== "number" && M.extractZone(t) !== undefined) ctx.violate("odd " + show(t), `extractZone(${show(t)}) gives ${show(M.extractZone(t))}`, {}); }
      }
      // every sign, hour and minute field, in range or not
      S.reset();
      for (const pre of ["", "UTC", "GMT"]) for (const sign of ["+", "-", "\u2212"]) for (let h = 0; h < 110; h++) for (const sep of [":", ""]) for (let m = -1; m < 100; m++) {
        if (m < 0 && sep === "") continue;
        const hh = h < 100 ? p2(h) : String(h - 100), o = (sign === "+" ? 1 : -1) * ((h < 100 ? h : h - 100) * 60 + Math.max(m, 0)), t = `${pre}${sign}${hh}${m < 0 ? "" : sep + p2(m)}`, real = m < 60 && REG.includes(o);
        ev("field " + t); ctx.add("traces");
        for (const [fn, f] of Object.entries(READ)) {
          if (fn === "timestamp" && pre === "GMT") continue;
          let r; try { r = f(t); } catch (e) { r = e.message; }
          if (r !== undefined && !(real && r === o)) ctx.violate(`field ${fn} ${t}`, `${fn}(${show(t)}) gives ${r}`, { t });
        }
        for (const [fn, r] of [["parseTimezoneOffsetToMinutes", M.parseTimezoneOffsetToMinutes(t)], ["parseTimezoneOffsetMatch", M.parseTimezoneOffsetMatch(new RegExp("^" + M.TimezoneOffsetRE.source + "$").exec(t))?.offsetMinutes]])
          if (r !== undefined && !(m < 60 && r === o && Math.abs(o) < 900)) ctx.violate(`field ${fn} ${t}`, `${fn}(${show(t)}) gives ${r}`, { t });
      }
      // abbreviations
      for (const over of [{}, { CST: -360, IST: 330, EST: 600, XYZ: 37, QQQ: 0 }, { EST: 0, CET: 0, JST: -300 }]) {
        S.tzAbbreviationOffsets.value = over;
        for (const [a, std] of [...Object.entries(ABBR), ...AMBIG.map((x) => [x, undefined]), ["QQQ", undefined]]) for (const k of [a, a.toLowerCase()]) {
          const o = over[a] ?? std, want = REG.includes(o) ? o : undefined, text = "2023:06:15 12:00:00 " + k;
          ev(`abbr ${show(over)} ${k}`);
          const r = M.extractZone(text), v = M.ExifDateTime.from(text);
          const got = r && zoff(M.normalizeZone(r.tz));
          if (got !== want) ctx.violate(`abbr ${k} ${show(over)}`, `${text} gives ${show(r)}, expected ${want}`, { k });
          else if (want !== undefined && !(v && v.tzoffsetMinutes === want && v.hour === 12)) ctx.violate(`abbr ${k} ${show(over)}`, `${text} became ${show(v)}`, { k });
          const both = M.extractZone(`2023:06:15 12:00:00-07:00 ${k}`);
          if (!both || zoff(M.normalizeZone(both.tz)) !== -420) ctx.violate(`abbr over ${k}`, `a stated offset gave way to ${k}: ${show(both)}`, { k });
          const no = M.extractZone(text, { stripTZA: false });
          if (no !== undefined) ctx.violate(`abbr nostrip ${k}`, `stripTZA:false still gave ${show(no)}`, { k });
        }
      }
      S.reset();
      for (const h of [-12, -11, -9.5, -8, 0, 5.5, 5.75, 14, 15, 1.4, 0.1]) { const o = Math.round(h * 60 * 1e6) / 1e6, want = REG.includes(o) ? o : undefined, r = M.extractZone(h), l = M.extractZone([h, 3]), n = M.extractZone([null, h]); ev(`hours ${h}`); for (const x of [r, l, n]) if ((x && zoff(M.normalizeZone(x.tz))) !== want) ctx.violate(`hours ${h}`, `an offset of ${h} hours gave ${show(x)}`, { h }); }
    }
    S.reset();
  },
};
