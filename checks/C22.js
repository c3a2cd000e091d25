"use strict";
const fs = require("node:fs");
const { load } = require("../lib/load.js");
const { Bench, product, show } = require("../lib/harness.js");
const { isOption } = require("../lib/argmodel.js");
const { json } = require("../lib/answers.js");

const A = Symbol("absent");
const DEF = { struct: 1, useMWG: true, imageHashType: false, geolocation: false, keepUTCTime: true, ignoreMinorErrors: true, readArgs: ["-fast"], writeArgs: [], numericTags: ["*Duration*", "GPSAltitude", "GPSLatitude", "GPSLongitude", "GPSPosition", "GeolocationPosition", "Orientation"] };
const FILTER = ["-api", "Filter=s/a/b/"];
const READ = {
  struct: [A, 0, 2, "undef"], useMWG: [A, false], imageHashType: [A, "SHA256", "bogus"], includeImageDataMD5: [A, true], geolocation: [A, true],
  keepUTCTime: [A, false], ignoreMinorErrors: [A, false], numericTags: [A, [], ["Orientation", "XMP:Rating*"], ["bad tag"]], readArgs: [A, [], ["-fast2", "-G"], ["-q", ...FILTER, "-ee"]],
};
// full domains, for the thorough tier
const READX = {
  ...READ, struct: [A, 0, 1, 2, "undef"], useMWG: [A, false, true], imageHashType: [A, false, "MD5", "SHA256", "SHA512", "bogus", "md5"], includeImageDataMD5: [A, true, false], geolocation: [A, true, false], keepUTCTime: [A, false, true], ignoreMinorErrors: [A, false, true],
};
const set = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== A));
const HASH = ["MD5", "SHA256", "SHA512"];
function resolve(inst, call) {
  const r = { ...DEF };
  for (const lvl of [inst, call]) {
    const l = set(lvl);
    if (l.imageHashType === undefined && l.includeImageDataMD5 !== undefined) l.imageHashType = l.includeImageDataMD5 ? "MD5" : false;
    Object.assign(r, l);
  }
  return r;
}
const validTag = (t) => /^[A-Za-z0-9_:*?+#^][\w:\-*?+#^]*$/.test(t) && !isOption(t + "#");
// features of a command: {api: {name: [values]}, use, json, numeric, all, fileIdx, minor, rest}
function features(args) {
  const f = { api: {}, apiIdx: [], use: [], json: [], numeric: [], all: [], minor: [], rest: [], consumed: new Set() };
  for (let i = 0; i < args.length; i++) {
    const a = args[i], l = a.toLowerCase();
    if (l === "-api") { const m = /^([^=^]*)(?:\^?=)?([\s\S]*)$/.exec(args[i + 1]); (f.api[m[1].toLowerCase()] ||= []).push({ v: m[2], i }); i++; continue; }
    if (l === "-use") { f.use.push({ v: args[i + 1], i }); i++; continue; }
    if (l === "-json" || l === "-j") { f.json.push(i); continue; }
    if (l === "-ignoreminorerrors" || a === "-m") { f.minor.push(i); continue; }
    if (l === "-all") { f.all.push(i); continue; }
    if (/^-[^=<]+#$/.test(a)) { f.numeric.push({ v: a.slice(1, -1), i }); continue; }
    f.rest.push({ a, i });
  }
  return f;
}
function subIndex(args, sub) { const r = []; for (let i = 0; i + sub.length <= args.length; i++) if (sub.every((x, k) => args[i + k] === x)) r.push(i); return r; }

// what the command must look like; returns a complaint or undefined
function judgeRead(args, r, file, raw) {
  const extra = r.readArgs;
  const at = extra.length ? subIndex(args, extra) : [0];
  if (at.length !== 1) return `extra arguments ${show(extra)} appear ${at.length} times`;
  // judge features outside the extra arguments
  const own = args.map((a, i) => (extra.length && i >= at[0] && i < at[0] + extra.length ? undefined : a)).filter((a) => a !== undefined);
  const f = features(own);
  const custom = (() => { let c = false; for (let i = 0; i + 1 < extra.length; i++) if (/^-api$/i.test(extra[i])) { const m = /^filter\^?=([\s\S]*)$/i.exec(extra[i + 1]); if (m) c = m[1].trim() !== ""; else if (/^filter\^?$/i.test(extra[i + 1])) c = true; } return c; })();
  if (f.json.length + (raw && extra.includes("-json") ? 1 : 0) !== 1) return "JSON output requested " + f.json.length + " times";
  const want = {};
  if (!custom) want.filter = null;
  if (!raw) {
    want.struct = typeof r.struct === "number" ? String(r.struct) : "0";
    if (r.imageHashType !== false) { want.requesttags = "imagedatahash"; want.imagehashtype = r.imageHashType; }
    if (r.geolocation) want.geolocation = ""; if (r.keepUTCTime) want.keeputctime = "";
  }
  for (const k of new Set([...Object.keys(want), ...Object.keys(f.api)])) {
    const got = f.api[k] || [];
    if (!(k in want)) return `unrequested API option ${k}=${got.map((x) => x.v)}`;
    if (got.length !== 1) return `API option ${k} given ${got.length} times`;
    if (want[k] !== null && got[0].v !== want[k]) return `API option ${k} is ${show(got[0].v)}, expected ${show(want[k])}`;
    if (k === "filter" && got[0].v.trim() === "") return "empty filter";
  }
  if (f.use.length !== (r.useMWG ? 1 : 0) || f.use.some((u) => u.v !== "MWG")) return `-use ${show(f.use)}`;
  if (f.minor.length !== (r.ignoreMinorErrors ? 1 : 0)) return `minor errors flag ${f.minor.length} times`;
  if (!raw) {
    if (show(f.numeric.map((x) => x.v)) !== show(r.numericTags)) return `numeric tags ${show(f.numeric.map((x) => x.v))}`;
    if (f.all.length !== 1) return `-all ${f.all.length} times`;
    if (f.numeric.some((x) => x.i > f.all[0])) return "numeric tag after -all";
  } else if (f.numeric.length) return "numeric tags in a raw read";
  if (f.rest.length !== 1 || f.rest[0].a !== file) return `other arguments: ${show(f.rest)}`;
  const fi = args.lastIndexOf(file);
  if (args.slice(fi + 1).some((a) => !/^-(ignoreMinorErrors|m)$/i.test(a))) return "file is not last";
}
function judgeWrite(args, r, file, fields, noStructOpt) {
  const extra = r.writeArgs;
  const at = extra.length ? subIndex(args, extra) : [0];
  if (at.length !== 1) return `extra arguments ${show(extra)} appear ${at.length} times`;
  const own = args.map((a, i) => (extra.length && i >= at[0] && i < at[0] + extra.length ? undefined : a)).filter((a) => a !== undefined);
  const f = features(own);
  const struct = typeof r.struct === "number" ? String(r.struct) : "2";
  if (show(Object.entries(f.api).map(([k, v]) => [k, v.map((x) => x.v)])) !== show([["struct", [struct]]])) return `API options ${show(f.api)}`;
  if (f.use.length !== (r.useMWG ? 1 : 0) || f.use.some((u) => u.v !== "MWG")) return `-use ${show(f.use)}`;
  if (f.minor.length !== (r.ignoreMinorErrors ? 1 : 0)) return `minor errors flag ${f.minor.length} times`;
  const rest = f.rest.map((x) => x.a);
  const seps = subIndex(rest, ["-sep"]);
  if (seps.length !== 1) return `-sep ${seps.length} times`;
  rest.splice(seps[0], 2);
  const e = rest.indexOf("-E"); if (e < 0) return "-E missing"; rest.splice(e, 1);
  if (show([...f.numeric.map((n) => "-" + n.v + "#"), ...rest].sort()) !== show([...fields, file].sort()) || rest.at(-1) !== file) return `assignments ${show(rest)}, expected ${show([...fields, file])}`;
  const fi = args.lastIndexOf(file);
  if (args.slice(fi + 1).some((a) => !/^-(ignoreMinorErrors|m)$/i.test(a))) return "file is not last";
}
const F = "/etv-none/f.jpg";

module.exports = {
  id: "C22", level: "model_checking",
  rule: "distinct = (call, instance options, call options) configurations whose complete command was compared with the reference",
  bounds: (t) => ({ read: t === "quick" ? "every combination of struct(4) x useMWG(2) x imageHashType(3) x includeImageDataMD5(2) x geolocation(2) x keepUTCTime(2) x ignoreMinorErrors(2) x numericTags(4) x readArgs(4), given on the call; and on the instance; every pair of options with all values at both levels" : "full value domains (booleans both ways, every hash type)", raw: "all combinations of readArgs, useMWG, ignoreMinorErrors at both levels", write: "all combinations of struct, useMWG, ignoreMinorErrors, writeArgs at both levels, for write, deprecated write, editTags, deleteAllTags", other: "extraction, repair and version with minor-error settings at both levels" }),
  shards(tier) {
    const of = tier === "quick" ? 4 : 16;
    return [...Array.from({ length: of }, (_, i) => ({ part: "read", level: "call", i, of })), ...Array.from({ length: of }, (_, i) => ({ part: "read", level: "inst", i, of })), { part: "pairs" }, { part: "raw" }, { part: "write" }, { part: "other" }];
  },
  async run(shard, ctx) {
    fs.mkdirSync = () => undefined; // extraction creates its destination directory: never here
    const M = load(ctx.dist);
    const respond = (c) => c.args.some((a) => /^-json$/i.test(a)) ? { out: json({ SourceFile: c.args.find((a) => a.startsWith("/")), A: 1, ThumbnailImage: "base64:AAAA" }) } : c.args.includes("-ver") ? { out: "13.59\n" } : c.args.includes("-b") ? { out: "    1 output files created\n" } : c.args.includes("-tagsfromfile") ? { out: "    1 image files created\n" } : { out: "    1 image files updated\n" };
    const bench = new Bench(M, respond, { maxProcs: 1 });
    const insts = new Map();
    const inst = (o) => { const k = show(Object.entries(set(o))); if (!insts.has(k)) { if (insts.size > 400) insts.clear(); insts.set(k, bench.instance({ maxProcs: 1, ...set(o) })); } return insts.get(k); };
    // returns {r, cmds}
    const go = async (et, call) => {
      const n = bench.env.children.map((c) => c.commands.length);
      const r = await bench.one(() => call(et), 20_000);
      const cmds = bench.env.children.flatMap((c, i) => c.commands.slice(n[i] ?? 0).filter((x) => !(x.n === 0 && x.args.length === 1 && x.args[0] === "-ver")));
      return { r, cmds };
    };
    const run1 = async (label, instOpts, call, expectReject, judge, extraChildren) => {
      const et = inst(instOpts);
      const { r, cmds } = await go(et, call);
      ctx.eval(label); ctx.add("transitions", cmds.length || 1);
      const bad = (m) => ctx.violate(`${shard.part}:${label}`.slice(0, 400), `${label}: ${m}`, { label });
      if (expectReject) {
        if (r.status !== "rejected") bad(`should reject, ${r.status}`);
        if (cmds.length) bad(`rejected configuration sent ${show(cmds[0].args)}`);
        return;
      }
      if (r.status !== "fulfilled" || cmds.length !== 1) return bad(`${cmds.length} commands, ${r.status} ${r.reason && r.reason.message}`);
      const m = judge(cmds[0].args);
      if (m) bad(`${m} in ${show(cmds[0].args.map((a) => a.slice(0, 60)))}`);
      ctx.sample({ label, args: cmds[0].args.map((a) => a.slice(0, 60)) }, 2);
    };
    const rejects = (r) => !(r.imageHashType === false || HASH.includes(r.imageHashType)) || r.numericTags.some((t) => !validTag(t));
    try {
      if (shard.part === "read") {
        let n = 0;
        for (const o of product(ctx.quick ? READ : READX)) {
          if (n++ % shard.of !== shard.i) continue;
          const [io, co] = shard.level === "call" ? [{}, o] : [o, {}];
          const r = resolve(io, co);
          await run1(shard.level + show(set(o)), io, (et) => et.read(F, set(co)), rejects(r), (a) => judgeRead(a, r, F));
        }
      } else if (shard.part === "pairs") {
        const X = { ...READX, imageHashType: [A, false, "SHA512", "bogus"], struct: [A, 0, 2, "undef"] };
        const ks = Object.keys(X);
        for (let i = 0; i < ks.length; i++) for (let j = i; j < ks.length; j++) {
          const d = {};
          for (const k of new Set([ks[i], ks[j]])) { d["i:" + k] = X[k]; d["c:" + k] = X[k]; }
          for (const o of product(d)) {
            const io = {}, co = {};
            for (const [k, v] of Object.entries(o)) (k[0] === "i" ? io : co)[k.slice(2)] = v;
            const r = resolve(io, co);
            await run1("p" + show(set(io)) + show(set(co)), io, (et) => et.read(F, set(co)), rejects(r), (a) => judgeRead(a, r, F));
          }
        }
        for (const args of READ.readArgs) if (args !== A) for (const opts of [undefined, { struct: 2 }, { readArgs: ["-zzz"], useMWG: false }]) {
          const r = { ...resolve({}, opts || {}), readArgs: args };
          await run1("arr" + show(args) + show(opts), {}, (et) => et.read(F, args, opts), false, (a) => judgeRead(a, r, F));
        }
        // one or several arguments, in order, repeated arguments kept
        for (const args of [["-a", "-b2", "-a"], ["-x", "-x"], ["-Title", "-Artist", "-Title#"], ["-use", "x"], ["-config", "MWG"], ["-all:all"], ["-All"], ["-allDates"], ["-x", "all"], ["-struct"], ["-n"], ["-m"], ["-G", "-struct", "-fast2"], ["-geolocation"], ["-api", "Compact"], ["-api", "struct"], ["-api", "MWG=1"], ["-jpgfromraw"], ["-ImageDataHash"], ["-Orientation"]]) { for (const more of [{}, { geolocation: true, imageHashType: "SHA512", struct: 0 }, { useMWG: false, keepUTCTime: false, numericTags: [] }, { geoTz: () => "Asia/Kolkata" }, { backfillTimezones: false, inferTimezoneFromDatestamps: true, preferTimezoneInferenceFromGps: true, adjustTimeZoneIfDaylightSavings: () => undefined, ignoreZeroZeroLatLon: false }]) {
          const r = resolve({}, { readArgs: args, ...more });
          await run1("ord" + show(args) + show(Object.keys(more)), {}, (et) => et.read(F, { readArgs: args, ...more }), false, (a) => judgeRead(a, r, F));
          await run1("ordi" + show(args) + show(Object.keys(more)), { readArgs: args, ...more }, (et) => et.read(F), false, (a) => judgeRead(a, r, F));
        } }
      } else if (shard.part === "raw") {
        const dom = { readArgs: [A, [], ["-fast2", "-G1"], ["-json", "-a"], ["-q", ...FILTER], ["-api", "filter="], ["-API", "FILTER^=x", "-api", "Filter="], ["-api", "filter"], ["-jpgfromraw", "-use", "x"]], useMWG: [A, true, false], ignoreMinorErrors: [A, true, false] };
        for (const io of product(dom)) for (const co of product(dom)) {
          const r = resolve(io, co);
          await run1("raw" + show(set(io)) + show(set(co)), io, (et) => et.readRaw(F, set(co)), false, (a) => judgeRead(a, r, F, true));
        }
        for (const args of dom.readArgs) if (args !== A) await run1("rawarr" + show(args), {}, (et) => et.readRaw(F, args, { useMWG: false }), false, (a) => judgeRead(a, { ...DEF, useMWG: false, readArgs: args }, F, true));
      } else if (shard.part === "write") {
        const dom = { struct: [A, 0, 1, 2, "undef"], useMWG: [A, true, false], ignoreMinorErrors: [A, true, false], writeArgs: [A, [], ["-overwrite_original", "-P"]] };
        const small = { struct: [A, 0, "undef"], useMWG: [A, true, false], ignoreMinorErrors: [A, true, false], writeArgs: [A, [], ["-P"]] };
        const calls = {
          write: [(et, o) => et.write(F, { Title: "x", Rating: 3 }, o), ["-Title=x", "-Rating=3"]],
          writeEmpty: [(et, o) => et.write(F, {}, o), ["-FileName<FileName"]],
          edit: [(et, o) => et.editTags(F, [{ tag: "XMP-dc:Subject", operation: "add", value: "a" }], o), ["-XMP-dc:Subject+=a"]],
        };
        for (const [name, [call, fields]] of Object.entries(calls)) {
          for (const io of product(ctx.quick ? small : dom)) for (const co of product(ctx.quick ? dom : dom)) {
            const r = resolve(io, co);
            await run1(name + show(set(io)) + show(set(co)), io, (et) => call(et, set(co)), false, (a) => judgeWrite(a, r, F, fields));
          }
        }
        for (const io of product(small)) for (const args of [["-P"], [], ["-a", "-b", "-a"]]) for (const co of [{}, { struct: 0 }, { writeArgs: ["-zz"], useMWG: false }]) {
          const r = { ...resolve(io, co), writeArgs: args };
          await run1("warr" + show(set(io)) + show(args) + show(co), io, (et) => et.write(F, { Title: "x" }, args, co), false, (a) => judgeWrite(a, r, F, ["-Title=x"]));
        }
        for (const io of product(small)) for (const co of product({ struct: [A, 2], useMWG: [A, false], ignoreMinorErrors: [A, false, true], retain: [A, [], ["Artist"], ["XMP:Title", "EXIF:all"], ["bad tag"], ["Artist", "x<y"]] })) {
          const r = resolve(io, co);
          const keep = (co.retain === A ? [] : co.retain);
          await run1("del" + show(set(io)) + show(set(co)), io, (et) => et.deleteAllTags(F, set(co)), keep.some((t) => !validTag(t)), (a) => judgeWrite(a, { ...r, writeArgs: [] }, F, ["-FileName<FileName", "-all=", ...keep.map((k) => `-${k}<${k}`)]) || (keep.length && a.indexOf("-all=") > a.indexOf(`-${keep[0]}<${keep[0]}`) ? "retained tag copied before the deletion" : undefined));
        }
      } else {
        const G = "/etv-none/out.jpg";
        for (const im of [A, true, false]) for (const fi of [A, true, false]) for (const cm of [A, true, false]) for (const fw of [A, true, false]) for (const rep of [A, true, false]) {
          const io = { ignoreMinorErrors: im, forceWrite: fi }, co = { ignoreMinorErrors: cm };
          const r = resolve(io, co);
          const force = (fw === A ? fi : fw) === true;
          const minor = r.ignoreMinorErrors ? ["-ignoreMinorErrors"] : [];
          // flags may come in any order; options keep their value, other arguments their order
          const canon = (a) => { const p = [], o = []; for (let i = 0; i < a.length; i++) { if (/^-(W!?|out)$/.test(a[i])) { p.push(a[i] + "=" + a[++i]); } else if (/^-(b|F|json|ignoreMinorErrors)$/.test(a[i])) p.push(a[i]); else o.push(a[i]); } return show([p.sort(), o]); };
          const same = (want) => (a) => canon(a) === canon([...want, ...minor]) ? undefined : `expected ${show([...want, ...minor])}`;
          const lab = show([im, fi, cm, fw, rep].map((x) => (x === A ? "absent" : x)));
          if (rep === A) {
            for (const [k, tag] of [["extractThumbnail", "ThumbnailImage"], ["extractPreview", "PreviewImage"], ["extractJpgFromRaw", "JpgFromRaw"]])
              await run1(k + lab, io, (et) => et[k](F, G, set({ ...co, forceWrite: fw })), false, same(["-b", "-" + tag, force ? "-W!" : "-W", G, F]));
            await run1("bin" + lab, io, (et) => et.extractBinaryTag("ICC_Profile", F, G, set({ ...co, forceWrite: fw })), false, same(["-b", "-ICC_Profile", force ? "-W!" : "-W", G, F]));
            if (fw === A) await run1("buf" + lab, io, (et) => et.extractBinaryTagToBuffer("ThumbnailImage", F, set(co)), false, same(["-json", "-b", "-ThumbnailImage", F]));
            if (fw === A && cm === A) await run1("ver" + lab, io, (et) => et.version(), false, same(["-ver"]));
          }
          if (fw === A) await run1("rew" + lab, io, (et) => et.rewriteAllTags(F, G, set({ ...co, allowMakerNoteRepair: rep })), false, same(["-all=", "-tagsfromfile", "@", "-all:all", "-unsafe", "-icc_profile", ...(rep === true ? ["-F"] : []), "-out", G, F]));
        }
      }
      ctx.outcome(shard.part + ":" + (shard.level || ""));
    } finally { bench.close(); }
  },
};
