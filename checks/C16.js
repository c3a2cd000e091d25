"use strict";
// Every sequence of setting changes, resets, (un)subscriptions and zone queries to a depth,
// against what a freshly loaded module gives under the same final settings.
const { load, fresh } = require("../lib/load.js");
const { show } = require("../lib/harness.js");

const NAMES = ["allowArchaicTimezoneOffsets", "allowBakerIslandTime", "maxValidOffsetMinutes", "tzAbbreviationOffsets", "logger"];
const ABB = Object.freeze({ CST: -360, EST: 600 }), ABB2 = Object.freeze({ CST: 480, EST: 0 });
const quietLog = () => ({ trace() {}, debug() {}, info() {}, warn() {}, error() {} });
const VALUES = { allowArchaicTimezoneOffsets: [true, false], allowBakerIslandTime: [true, false], maxValidOffsetMinutes: [15, 60, 30, 0], tzAbbreviationOffsets: [ABB, ABB2], logger: [quietLog] };
const OFFS = [-720, -660, -630, -270, -44, 0, 20, 291, 330, 450, 840, 900];
const TEXTS = ["-12:00", "-10:30", "+04:51", "UTC+7:30", "-04:30", "+05:30", "UTC-12", "+00:20", "2023:06:15 12:00:00 CST", "2023:06:15 12:00:00 EST", "2023:06:15 12:00:00 IST", "2023:06:15 12:00:00-10:30"];
// every zone-related result, as one text; `part` probes separately so that caches are warmed in different ways
const PROBES = {
  valid: (M) => OFFS.map((o) => M.validTzOffsetMinutes(o)),
  name: (M) => OFFS.map((o) => M.offsetMinutesToZoneName(o)),
  norm: (M) => [...OFFS, ...TEXTS].map((o) => M.normalizeZone(o)?.name),
  extract: (M) => TEXTS.map((t) => M.extractZone(t)?.tz),
  infer: (M) => [-745, -720, -700, -640, -625, -265, -50, 7, 25, 46, 291, 299, 446, 872, 890].map((d) => M.inferLikelyOffsetMinutes(d)),
  parse: (M) => TEXTS.filter((t) => t.length > 10).map((t) => { const v = M.ExifDateTime.from(t); return v && [v.hasZone, v.zone, v.tzoffsetMinutes, v.toExifString()]; }).concat(["-12:00", "+04:51", "+07:30"].map((z) => { const v = M.ExifDateTime.from("2023:06:15 12:00:00" + z); return v && [v.zone, v.toISOString()]; })),
  tags: (M) => ["-12:00", "-10:30", "+04:51"].map((z) => M.extractTzOffsetFromTags({ TimeZone: z, OffsetTimeOriginal: "+01:00" })).concat([M.extractTzOffsetFromUTCOffset({ DateTimeOriginal: "2023:06:15 12:00:00", GPSDateTime: "2023:06:15 23:58:00Z" }), M.extractTzOffsetFromUTCOffset({ DateTimeOriginal: "2023:06:15 12:00:00", GPSDateTime: "2023:06:15 22:34:00Z" })]),
};
const probe = (M) => JSON.stringify(Object.values(PROBES).map((f) => f(M)));
const KINDS = ["a", "b", "throws", "veto", "query"];

module.exports = {
  id: "C16", level: "model_checking",
  rule: "distinct = distinct operation histories over the settings, each ended by comparing every zone-related result and every notification with the model",
  bounds: (t) => ({ depth: t === "quick" ? "3 over 24 operations, 4 over 12, 5 over 8" : "4 over 24 operations, 5 over 12, 6 over 8", settings: NAMES, listenerKinds: KINDS, probes: Object.keys(PROBES) }),
  assumptions: [],
  shards(tier) {
    const s = [{ part: "fresh" }];
    for (const [part, of] of [["wide", 2], ["listen", 3], ["deep", 3]]) for (let i = 0; i < of; i++) s.push({ part, i, of });
    return s;
  },
  async run(shard, ctx) {
    const key = (st) => NAMES.slice(0, 4).map((n) => (typeof st[n] === "object" ? JSON.stringify(st[n]) : st[n])).join("|");
    // what a fresh process gives, per combination of settings
    const FRESH = new Map();
    const freshFor = (st) => {
      const k = key(st);
      if (!FRESH.has(k)) {
        const M0 = fresh(ctx.dist);
        for (const n of NAMES.slice(0, 4)) if (M0.Settings[n].value !== st[n] && !(n === "tzAbbreviationOffsets" && st[n] !== ABB && st[n] !== ABB2)) M0.Settings[n].value = st[n];
        FRESH.set(k, probe(M0));
        ctx.add("traces");
      }
      return FRESH.get(k);
    };
    const M = fresh(ctx.dist), S = M.Settings, DEF = Object.fromEntries(NAMES.map((n) => [n, S[n].value]));
    process.removeAllListeners("beforeExit"); process.removeAllListeners("exit");
    if (shard.part === "fresh") {
      for (const a of [false, true]) for (const b of [false, true]) for (const m of [0, 15, 30, 60]) for (const t of [{}, ABB, ABB2]) { ctx.eval(`settings ${a} ${b} ${m} ${show(t)}`); freshFor({ allowArchaicTimezoneOffsets: a, allowBakerIslandTime: b, maxValidOffsetMinutes: m, tzAbbreviationOffsets: t }); }
      const want = { allowArchaicTimezoneOffsets: false, allowBakerIslandTime: false, maxValidOffsetMinutes: 30, tzAbbreviationOffsets: {} };
      if (key(DEF) !== key(want)) ctx.violate("defaults", `defaults are ${key(DEF)}`, {});
      if (new Set(FRESH.values()).size < 40) ctx.violate("effect", `only ${new Set(FRESH.values()).size} of 48 combinations of settings differ in any zone result`, {});
      // the caller's abbreviations take effect, and win over the built-in ones
      for (const [t, z] of [[{}, { CST: undefined, EST: "UTC-5" }], [ABB, { CST: "UTC-6", EST: "UTC+10" }], [ABB2, { CST: "UTC+8", EST: "UTC" }], [{}, { CST: undefined, EST: "UTC-5" }]]) {
        S.tzAbbreviationOffsets.value = t;
        for (const [k, w] of Object.entries(z)) { ctx.eval(`abbreviation ${show(t)} ${k}`); const g = M.extractZone("2023:06:15 12:00:00 " + k)?.tz; if (g !== w) ctx.violate(`abbreviation ${show(t)} ${k}`, `with ${show(t)}, ${k} denotes ${g}, expected ${w}`, {}); }
      }
      S.tzAbbreviationOffsets.reset();
      for (const n of NAMES) { ctx.eval("default " + n); if (S[n].defaultValue !== DEF[n] || S[n].valueOf() !== DEF[n]) ctx.violate("default " + n, `${n}: defaultValue ${S[n].defaultValue}`, {}); }
      ctx.sample({ settings: key(want), results: freshFor(want).slice(0, 300) });
      return;
    }
    const A = "allowArchaicTimezoneOffsets", B = "allowBakerIslandTime", X = "maxValidOffsetMinutes", T = "tzAbbreviationOffsets";
    const OPS = shard.part === "wide"
      ? [["set", A, true], ["set", A, false], ["set", B, true], ["set", B, false], ["set", X, 15], ["set", X, 0], ["set", T, ABB], ["set", T, ABB2], ["set", "logger", quietLog], ["reset", A], ["reset", B], ["reset", T], ["resetAll"], ["on", A, "a"], ["on", B, "b"], ["on", A, "throws"], ["on", A, "veto"], ["on", A, "query"], ["on", B, "throws"], ["on", X, "query"], ["off", 0], ["off", 1], ["q", "valid"], ["q", "all"]]
      : shard.part === "listen" ? [["set", A, true], ["set", A, false], ["set", B, true], ["set", X, 0], ["set", T, ABB2], ["resetAll"], ["on", A, "a"], ["on", A, "throws"], ["on", A, "veto"], ["on", B, "query"], ["off", 0], ["q", "all"]]
      : [["set", A, true], ["set", A, false], ["set", B, true], ["reset", B], ["q", "valid"], ["q", "infer"], ["q", "extract"], ["resetAll"]];
    const depth = { wide: 3, listen: 4, deep: 5 }[shard.part] + (ctx.quick ? 0 : 1);
    let bad = 0;
    const runSeq = (seq) => {
      for (const n of NAMES) S[n].reset();
      const st = { ...DEF }, subs = [], log = [], want = [], all = [];
      const fail = (msg) => { if (bad++ < 20) ctx.violate(show(seq.map((o) => o.slice(0, 3).map((x) => (typeof x === "function" ? "fn" : x)))), `${msg} after ${show(seq.map((o) => o.slice(0, 3)))}`, { seq: show(seq) }); };
      // model of one effective change: every subscribed listener hears it once (a vetoing one sets it back once)
      const change = (n, v) => {
        if (st[n] === v) return;
        const old = st[n]; st[n] = v;
        for (const s of subs.filter((x) => x.on && x.n === n)) want.push([s.id, old, v]);
        for (const s of subs.filter((x) => x.on && x.n === n && x.kind === "veto" && !x.busy)) { s.busy = true; change(n, old); s.busy = false; }
      };
      const real = (f) => { try { f(); } catch (e) { if (e.message !== "listener failed") throw e; } };
      for (const op of seq) {
        ctx.add("transitions");
        if (op[0] === "set") { real(() => { S[op[1]].value = op[2]; }); change(op[1], op[2]); }
        else if (op[0] === "reset") { real(() => S[op[1]].reset()); change(op[1], DEF[op[1]]); }
        else if (op[0] === "resetAll") { real(() => S.reset()); for (const n of NAMES) change(n, DEF[n]); }
        else if (op[0] === "on") {
          const [, n, kind] = op, s = { id: subs.length, n, kind, on: true, busy: false, depth: 0 };
          s.off = S[n].onChange((o, v) => {
            log.push([s.id, o, v]);
            if (kind === "throws") throw new Error("listener failed");
            if (kind === "veto" && s.depth++ === 0) { try { real(() => { S[n].value = o; }); } finally { s.depth = 0; } }
            if (kind === "query") { if (S[n].value !== v && !subs.some((x) => x.kind === "veto" && x.n === n)) fail("a listener sees a value other than the one announced"); const cur = Object.fromEntries(NAMES.map((m) => [m, S[m].value])); if (probe(M) !== freshFor(cur)) fail("inside a listener, zone results are stale"); }
          });
          subs.push(s); all.push(s.off);
        } else if (op[0] === "off") { const s = subs[op[1]]; if (s) { s.off(); s.on = false; } }
        else if (op[0] === "q") { if (op[1] === "all") { if (probe(M) !== freshFor(st)) fail("zone results are stale"); } else PROBES[op[1]](M); }
        for (const n of NAMES) if (S[n].value !== st[n] || S[n].valueOf() !== st[n]) { fail(`${n} is ${show(S[n].value)}, expected ${show(st[n])}`); break; }
      }
      if (probe(M) !== freshFor(st)) fail(`zone results differ from a fresh process with settings ${key(st)}`);
      const canon = (l) => l.map((x) => x.map((y) => (typeof y === "function" ? "fn" : typeof y === "object" ? JSON.stringify(y) : String(y))).join(">")).sort().join(" ");
      if (canon(log) !== canon(want)) fail(`listeners heard [${canon(log)}], expected [${canon(want)}]`);
      // listeners of settings without vetoes hear changes in order
      for (const s of subs) if (!subs.some((x) => x.kind === "veto" && x.n === s.n)) { const f = (l) => canonOrder(l.filter((e) => e[0] === s.id)); if (f(log) !== f(want)) fail("a listener heard changes out of order"); }
      for (const o of all) o();
    };
    const canonOrder = (l) => l.map((x) => x.map((y) => (typeof y === "function" ? "fn" : typeof y === "object" ? JSON.stringify(y) : String(y))).join(">")).join(" ");
    const rec = (seq) => {
      if (seq.length === 2 && (seq.reduce((a, o) => a * OPS.length + OPS.indexOf(o), 0)) % shard.of !== shard.i) return;
      if (seq.length === depth) { ctx.add("evaluations"); ctx.states = (ctx.states ?? 0) + 1; ctx.seen.add(ctx.states); runSeq(seq); return; }
      for (const o of OPS) { if (o[0] === "off" && seq.filter((x) => x[0] === "on").length <= o[1]) continue; rec([...seq, o]); }
    };
    rec([]);
    for (const n of NAMES) S[n].reset();
  },
};
