"use strict";
const fs = require("node:fs");
const { load } = require("../lib/load.js");
const { Bench, seqs, product, show } = require("../lib/harness.js");
const { obs, settled, deepFreeze } = require("../lib/obs.js");
const { json } = require("../lib/answers.js");

const A = Symbol("absent");
const set = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== A));
// answers, by kind of file (the file name says which)
const BODY = {
  zone: { Make: "NIKON CORPORATION", DaylightSavings: "Yes", TimeZone: "+02:00", DateTimeOriginal: "2021:05:06 07:08:09", CreateDate: "2021:05:06 07:08:09.123+01:00", GPSLatitude: 40.5, GPSLongitude: -73.5, GPSLatitudeRef: "N", GPSLongitudeRef: "W", Title: "t", ThumbnailImage: "base64:AAEC" },
  stamp: { DateTimeOriginal: "2021:05:06 07:08:09-03:00", CreateDate: "2021:05:06 07:08:09", MediaCreateDate: "2021:05:06 07:08:09+05:00", TimeStamp: "2021:05:06 03:08:09Z", Rating: 3 },
  ts: { DateTimeOriginal: "2021:05:06 07:08:09", TimeStamp: "2021:05:06 03:08:09Z", GPSLatitude: 0, GPSLongitude: 0, DateTimeUTC: "bad" },
  utc: { DateTimeOriginal: "2021:05:06 07:08:09", GPSDateTime: "2021:05:06 02:08:09Z", GPSLatitude: 0, GPSLongitude: 0 },
  video: { MIMEType: "video/mp4", CreateDate: "2021:05:06 07:08:09", MediaCreateDate: "2021:05:06 07:08:09", GPSLatitude: 40.5, GPSLongitude: -73.5, Duration: 3 },
};
const kind = (f) => /\/(\w+)-[^/]*$/.exec(f)?.[1];
function respond(c) {
  const f = c.args.filter((a) => a.startsWith("/")).pop();
  if (!f) return { out: "13.50\n" };
  if (kind(f) === "err") return { out: "", err: "Error: Cannot do that - " + f + "\n" };
  if (c.args.includes("-json")) return { out: json({ SourceFile: f, ...BODY[kind(f)] }) };
  if (c.args.includes("-b")) return { out: "    1 output files created\n" };
  if (c.args.includes("-tagsfromfile")) return { out: "    1 image files created\n", err: "Warning: [minor] x\n" };
  return { out: "    1 image files updated\n" };
}
// calls; `a` holds the (shared or private) argument objects
const args0 = () => ({
  ro: { numericTags: ["Rating", "Orientation", "Flash"], readArgs: ["-fast2", "-G1"], struct: 2, useMWG: false, geolocation: true },
  ra: ["-fast", "-ee"], md5: { includeImageDataMD5: true }, gro: { readArgs: ["-G"], inferTimezoneFromDatestampTags: ["MediaCreateDate", "CreateDate"] },
  raw: { readArgs: ["-a"], useMWG: false },
  tags: { Title: "t", Subject: ["a", "b"], History: [{ When: "2020:01:02 03:04:05", Action: "x" }], Rating: 3 },
  gps: { GPSLatitude: 12.5, GPSLongitude: -3.25, GPSAltitude: -7 }, gpsNull: { GPSLatitude: null, GPSLongitude: null, GPSAltitude: null },
  wo: { writeArgs: ["-overwrite_original"], struct: 0 }, wa: ["-P"],
  edits: [{ tag: "XMP-dc:Subject", operation: "add", value: "a&b" }, { tag: "XMP-mwg-coll:Collections", operation: "add", value: { CollectionName: "n", CollectionURI: "u" } }],
  del: { retain: ["XMP:Title", "Artist"], useMWG: false }, bin: { forceWrite: true, ignoreMinorErrors: false }, rew: { allowMakerNoteRepair: true }, bad: { numericTags: ["bad tag"] }, badTags: { "a b": 1 }, empty: {},
});
const D = "/etv-none/";
const OPS = {
  readOpts: (e, a, p) => e[0].read(p("zone"), a.ro), read: (e, a, p) => e[0].read(p("stamp")), read2: (e, a, p) => e[1].read(p("zone"), a.empty), read2Opts: (e, a, p) => e[1].read(p("ts"), a.ro),
  readArr: (e, a, p) => e[0].read(p("utc"), a.ra, a.md5), readMd5: (e, a, p) => e[0].read(p("ts"), a.md5), readG: (e, a, p) => e[1].read(p("stamp"), a.gro), video: (e, a, p) => e[0].read(p("video")), video2: (e, a, p) => e[1].read(p("video"), a.md5),
  raw: (e, a, p) => e[0].readRaw(p("zone"), a.raw), raw2: (e, a, p) => e[1].readRaw(p("zone")),
  write: (e, a, p) => e[0].write(p("w"), a.tags, a.wo), gps: (e, a, p) => e[0].write(p("w"), a.gps), gpsNull: (e, a, p) => e[1].write(p("w"), a.gpsNull, a.wa), write2: (e, a, p) => e[1].write(p("w"), a.tags),
  edit: (e, a, p) => e[0].editTags(p("w"), a.edits, a.wo), del: (e, a, p) => e[0].deleteAllTags(p("w"), a.del), del2: (e, a, p) => e[1].deleteAllTags(p("w"), a.empty),
  bin: (e, a, p) => e[0].extractThumbnail(p("zone"), D + "o", a.bin), bin2: (e, a, p) => e[1].extractPreview(p("zone"), D + "o"), buf: (e, a, p) => e[0].extractBinaryTagToBuffer("ThumbnailImage", p("zone"), a.bin), rew: (e, a, p) => e[1].rewriteAllTags(p("zone"), D + "o", a.rew), rew2: (e, a, p) => e[0].rewriteAllTags(p("zone"), D + "o"),
  errR: (e, a, p) => e[0].read(p("err")), errW: (e, a, p) => e[0].write(p("err"), a.tags), errW2: (e, a, p) => e[1].editTags(p("err"), a.edits), errB: (e, a, p) => e[1].extractThumbnail(p("err"), D + "o"),
  bad: (e, a, p) => e[0].read(p("zone"), a.bad), badW: (e, a, p) => e[1].write(p("w"), a.badTags),
};
const EXTRA = { version: (e) => e[0].version(), version2: (e) => e[1].version() };
const INST = () => [{ maxProcs: 2 }, { maxProcs: 2, exiftoolEnv: { LANG: "fr", X: "1" }, struct: "undef", useMWG: false, readArgs: ["-ee", "-api", "Filter=s/x/y/"], writeArgs: ["-overwrite_original"], numericTags: ["Rating", "Flash"], imageHashType: "SHA256", geolocation: true, keepUTCTime: false, ignoreMinorErrors: false, forceWrite: true, backfillTimezones: false, defaultVideosToUTC: false, inferTimezoneFromDatestamps: false, includeImageDataMD5: false }];

const OPTS = {
  adjustTimeZoneIfDaylightSavings: [() => 120, () => undefined], backfillTimezones: [true, false], defaultVideosToUTC: [true, false], geolocation: [true, false], geoTz: [() => "America/New_York", () => undefined], ignoreMinorErrors: [true, false], ignoreZeroZeroLatLon: [true, false], imageHashType: ["SHA512", false], includeImageDataMD5: [true, false],
  inferTimezoneFromDatestamps: [true, false], inferTimezoneFromDatestampTags: [["MediaCreateDate"], ["CreateDate", "DateTimeOriginal"]], inferTimezoneFromTimeStamp: [true, false], keepUTCTime: [true, false], numericTags: [["Rating"], []], preferTimezoneInferenceFromGps: [true, false], readArgs: [["-G"], []], struct: [0, 2], useMWG: [true, false],
};

for (const [k, vs] of Object.entries(OPTS)) vs.forEach((v, i) => { EXTRA[`${k}#${i}`] = (e, a, p) => e[0].read(p("zone"), { [k]: v }); });
const DIFF = (x, y) => { let i = 0; while (i < x.length && x[i] === y[i]) i++; return `...${x.slice(Math.max(0, i - 40), i + 60)} -> ...${y.slice(Math.max(0, i - 40), i + 60)}`; };

module.exports = {
  id: "C06", level: "model_checking",
  rule: "distinct = call histories (with shared argument objects, sequential and concurrent) and option placements executed and compared with the isolated baseline",
  bounds: (t) => ({ calls: Object.keys(OPS).length, instances: 2, history: t === "quick" ? "all sequences of 2 calls, concurrent and sequential, plus all of 3 sequential" : "all sequences of 3 calls concurrent and sequential, all of 4 over 12 calls", placement: "every option and every pair of options: {absent, v1, v2} at instance x call level on 5 answers; the full product of the options of every other call", samefile: "all pairs of calls (and of reads differing in one option) for one file, together and in turn", frozen: "every call with deeply frozen arguments; every constructor options object compared before and after" }),
  shards(tier) {
    const of = tier === "quick" ? 8 : 24;
    return [...Array.from({ length: of }, (_, i) => ({ part: "history", i, of })), ...Array.from({ length: 8 }, (_, i) => ({ part: "placement", i, of: 8 })), ...Array.from({ length: 6 }, (_, i) => ({ part: "same", i, of: 6 })), { part: "placement2", i: 0, of: 2 }, { part: "placement2", i: 1, of: 2 }];
  },
  async run(shard, ctx) {
    fs.mkdirSync = () => undefined;
    const M = load(ctx.dist);
    const defaults = M.DefaultExifToolOptions ?? require(ctx.dist + "/DefaultExifToolOptions.js").DefaultExifToolOptions;
    const def0 = obs(defaults);
    // every instance any part constructs: the options object given to the constructor stays as it was
    class Checked extends M.ExifTool {
      constructor(o) {
        const s = obs(o);
        super(o);
        ctx.add("constructions");
        if (obs(o) !== s) ctx.violate("constructor", "the constructor modified the options it was given: " + DIFF(s, obs(o)));
      }
    }
    await this[shard.part](shard, ctx, { ...M, ExifTool: Checked });
    if (obs(defaults) !== def0) ctx.violate("defaults", "the library's default options were modified: " + obs(defaults).slice(0, 300));
    ctx.outcome(shard.part);
  },
  async exec(M, ops, { concurrent, frozen, same }) {
    const opts = INST();
    const b = new Bench(M, respond, opts[0]);
    try {
      const ets = [b.et, b.instance(opts[1])];
      const before = ets.map((e) => obs(e.options)), optsBefore = obs(opts);
      const a = frozen ? deepFreeze(args0()) : args0();
      const want = obs(a);
      const thunks = ops.map((o, i) => () => (OPS[o] ?? EXTRA[o])(ets, a, (k) => (same ? `${D}${same}-0.jpg` : `${D}${k}-${i}.jpg`)));
      const res = [];
      if (concurrent) res.push(...(await b.all(thunks, 60_000)));
      else for (const t of thunks) res.push(await b.one(t, 60_000));
      const cmds = b.env.children.flatMap((c) => c.commands).filter((c) => !(c.n === 0 && c.args.length === 1));
      if (same) return { res: res.map(settled), cmds: cmds.map((c) => c.args.join("\n")).sort() };
      const out = ops.map((o, i) => ({ cmd: cmds.filter((c) => c.args.some((x) => x.endsWith(`-${i}.jpg`))).map((c) => c.args.join("\n")), res: settled(res[i]) }));
      const side = [];
      if (obs(a) !== want) side.push("arguments modified: " + DIFF(want, obs(a)));
      ets.forEach((e, i) => { if (obs(e.options) !== before[i]) side.push(`instance ${i} options modified: ` + DIFF(before[i], obs(e.options))); });
      if (obs(opts) !== optsBefore) side.push("constructor options modified");
      if (cmds.length !== out.reduce((s, x) => s + x.cmd.length, 0)) side.push("stray command");
      return { out, side };
    } finally { b.close(); }
  },
  async history(shard, ctx, M) {
    const names = Object.keys(OPS);
    const exec = (...a) => this.exec(M, ...a);
    const diff = DIFF;
    // isolated baselines: fresh instances, fresh arguments, one call
    const base = new Map();
    const at = (o, i) => { const s = JSON.stringify(base.get(o)); return s.replaceAll("-0.jpg", `-${i}.jpg`); };
    for (const o of names) {
      const r = await exec([o], {});
      base.set(o, r.out[0]);
      for (const s of r.side) ctx.violate(`single:${o}:${s.split(":")[0]}`, `${o}: ${s}`);
      const z = await exec([o], { frozen: true });
      ctx.eval("single " + o); ctx.eval("frozen " + o); ctx.add("transitions", 2);
      if (JSON.stringify(z.out[0]) !== JSON.stringify(r.out[0])) ctx.violate(`frozen:${o}`, `${o} with frozen arguments: ${z.out[0].res} instead of ${r.out[0].res}; ${show(z.out[0].cmd)}`);
      ctx.sample({ call: o, result: r.out[0].res.slice(0, 120) }, 3);
    }
    let n = 0;
    const hist = async (ops, concurrent) => {
      if (n++ % shard.of !== shard.i) return;
      const r = await exec(ops, { concurrent });
      const l = (concurrent ? "||" : ";") + ops.join(" ");
      ctx.eval(l); ctx.add("transitions", ops.length);
      ops.forEach((o, i) => { if (JSON.stringify(r.out[i]) !== at(o, i)) ctx.violate(`history:${o}`, `after/with ${l}: call ${i} (${o}) differs from the isolated call: ${diff(at(o, i), JSON.stringify(r.out[i]))}`, { ops }); });
      for (const s of r.side) ctx.violate(`history:${s.split(":")[0]}:${ops.join(" ")}`, `${l}: ${s}`, { ops });
    };
    for (const ops of seqs(names, ctx.quick ? 2 : 3, 2)) { await hist(ops, true); await hist(ops, false); }
    if (ctx.quick) for (const ops of seqs(names.filter((x) => !/^(bad|raw2|del2|bin2|rew2|video2|write2)$/.test(x)), 3, 3)) await hist(ops, false);
    else for (const ops of seqs(["readOpts", "read", "read2Opts", "readArr", "readMd5", "video", "write", "gps", "gpsNull", "edit", "del", "bad"], 4, 4)) await hist(ops, false);
  },
  // calls that differ in any one option, made together or in turn for one and the same file
  async same(shard, ctx, M) {
    const names = [...Object.keys(OPS), ...Object.keys(EXTRA)];
    const exec = this.exec;
    let n = 0;
    for (const same of ctx.quick ? ["zone", "ts"] : Object.keys(BODY)) {
      const base = new Map();
      for (const o of names) base.set(o, await exec(M, [o], { same }));
      const seen = new Set([...base.values()].map((x) => JSON.stringify(x)));
      ctx.add("distinct_baselines", seen.size);
      for (const ops of seqs(names, 2, 2)) for (const concurrent of [true, false]) {
        if (n++ % shard.of !== shard.i) continue;
        const r = await exec(M, ops, { same, concurrent }), l = `${same}${concurrent ? "||" : ";"}${ops.join(" ")}`;
        ctx.eval(l); ctx.add("transitions", ops.length);
        ops.forEach((o, i) => { if (r.res[i] !== base.get(o).res[0]) ctx.violate(`same:${o}`, `${l}: call ${i} (${o}) differs from the isolated call: ${show(r.res[i].slice(0, 300))} instead of ${show(base.get(o).res[0].slice(0, 300))}`, { ops }); });
        if (show(r.cmds) !== show(ops.flatMap((o) => base.get(o).cmds).sort())) ctx.violate(`samecmds:${ops.join(" ")}`, `${l}: commands ${show(r.cmds)}`, { ops });
      }
    }
  },
  async placement2(shard, ctx, M) {
    const W = { useMWG: [true, false], struct: [0, 2], writeArgs: [["-P"], ["-overwrite_original"]], ignoreMinorErrors: [true, false] }, I = { ignoreMinorErrors: [true, false] };
    const F = D + "zone-x.jpg";
    const CALLS = {
      thumb: [{ ...I, forceWrite: [true, false] }, (e, o) => e.extractThumbnail(F, D + "o", o)], preview: [{ ...I, forceWrite: [true, false] }, (e, o) => e.extractPreview(F, D + "o", o)], jpg: [{ ...I, forceWrite: [true, false] }, (e, o) => e.extractJpgFromRaw(F, D + "o", o)], tag: [{ ...I, forceWrite: [true, false] }, (e, o) => e.extractBinaryTag("OtherImage", F, D + "o", o)],
      buffer: [I, (e, o) => e.extractBinaryTagToBuffer("ThumbnailImage", F, o)], rewrite: [I, (e, o) => e.rewriteAllTags(F, D + "o", o)],
      write: [W, (e, o) => e.write(F, { Title: "t", History: [{ Action: "x" }] }, o)], edit: [W, (e, o) => e.editTags(F, args0().edits, o)], del: [{ useMWG: W.useMWG, struct: W.struct, ...I }, (e, o) => e.deleteAllTags(F, o)],
      raw: [{ readArgs: [["-a"], []], useMWG: [true, false], ...I }, (e, o) => e.readRaw(F, o)], writeArr: [W, (e, o) => e.write(F, { Title: "t" }, ["-m"], o)], readArr: [{ numericTags: [["Rating"], []], struct: [0, 2], readArgs: [["-G"], []], ...I }, (e, o) => e.read(F, ["-fast"], o)],
    };
    const key = (o) => JSON.stringify(o);
    for (const [name, [opts, call]] of Object.entries(CALLS)) {
      const b = new Bench(M, respond, { maxProcs: 1 }), cache = new Map();
      const outcome = async (io, co) => {
        const k = key(io) + key(co);
        if (cache.has(k)) return cache.get(k);
        const et = b.instance({ maxProcs: 1, ...io }), n = b.env.children.map((c) => c.commands.length);
        const r = await b.one(() => call(et, Object.keys(co).length ? co : undefined), 60_000);
        const cmds = b.env.children.flatMap((c, i) => c.commands.slice(n[i] ?? 0)).filter((c) => c.args.length > 1).map((c) => c.args.join("\n"));
        cache.set(k, cmds.join("\n\n") + "\n" + settled(r));
        return cache.get(k);
      };
      const dom = {};
      for (const [k, v] of Object.entries(opts)) { dom["i:" + k] = [A, ...v]; dom["c:" + k] = [A, ...v]; }
      let n = 0;
      for (const o of product(dom)) {
        if (n++ % shard.of !== shard.i) continue;
        const io = {}, co = {}, eff = {};
        for (const k of Object.keys(opts)) { const x = o["i:" + k], y = o["c:" + k]; if (x !== A) { io[k] = x; eff[k] = x; } if (y !== A) { co[k] = y; eff[k] = y; } }
        const got = await outcome(io, co);
        ctx.eval(`${name} inst${key(io)} call${key(co)}`); ctx.add("transitions");
        for (const [w, x] of [["on the instance", await outcome(eff, {})], ["on the call", await outcome({}, eff)]]) if (got !== x) ctx.violate(`placement2:${name}:${w}`, `${name} with instance ${key(io)}, call ${key(co)}: ${show(got)} but the same values given only ${w} give ${show(x)}`, { name });
      }
      b.close();
    }
  },
  async placement(shard, ctx, M) {
    const b = new Bench(M, respond, { maxProcs: 1 });
    const files = Object.keys(BODY).map((k) => `${D}${k}-x.jpg`);
    const cache = new Map();
    const insts = new Map();
    const key = (o) => Object.keys(o).sort().map((k) => k + "=" + (OPTS[k].indexOf(o[k]))).join(",");
    const outcome = async (io, co) => {
      const k = key(io) + "|" + key(co);
      if (cache.has(k)) return cache.get(k);
      let et = insts.get(key(io));
      if (!et) { if (insts.size > 500) { insts.clear(); } et = b.instance({ maxProcs: 1, ...io }); insts.set(key(io), et); }
      const n = b.env.children.map((c) => c.commands.length);
      const rs = await b.all(files.map((f) => () => et.read(f, Object.keys(co).length ? co : undefined)), 60_000);
      const cmds = b.env.children.flatMap((c, i) => c.commands.slice(n[i] ?? 0)).filter((c) => c.args.length > 1).map((c) => c.args.join("\n"));
      const r = cmds.join("\n\n") + "\n" + rs.map(settled).join("\n");
      cache.set(k, r);
      return r;
    };
    try {
      const ks = Object.keys(OPTS);
      let n = 0, effects = 0;
      const none = await outcome({}, {});
      for (let i = 0; i < ks.length; i++) for (let j = i; j < ks.length; j++) {
        if (n++ % shard.of !== shard.i) continue;
        const pair = [...new Set([ks[i], ks[j]])];
        // how the deprecated spelling combines with its replacement across levels is C22's subject
        if (pair.includes("imageHashType") && pair.includes("includeImageDataMD5")) continue;
        const dom = {};
        for (const k of pair) { dom["i:" + k] = [A, ...OPTS[k]]; dom["c:" + k] = [A, ...OPTS[k]]; }
        for (const o of product(dom)) {
          const io = {}, co = {}, eff = {};
          for (const k of pair) { const x = o["i:" + k], y = o["c:" + k]; if (x !== A) { io[k] = x; eff[k] = x; } if (y !== A) { co[k] = y; eff[k] = y; } }
          const got = await outcome(io, co);
          const viaInst = await outcome(eff, {}), viaCall = await outcome({}, eff);
          const l = `inst{${key(io)}} call{${key(co)}}`;
          ctx.eval(l); ctx.add("transitions", files.length);
          if (viaInst !== none) effects++;
          if (got !== viaInst || got !== viaCall) { const x = got !== viaInst ? viaInst : viaCall; let p = 0; while (x[p] === got[p]) p++; ctx.violate(`placement:${pair.join("+")}`, `${l}: outcome differs from the same values given only ${got !== viaInst ? "on the instance" : "on the call"}: ${show(x.slice(Math.max(0, p - 60), p + 80))} vs ${show(got.slice(Math.max(0, p - 60), p + 80))}`, { l }); }
        }
        if (insts.size > 200) insts.clear();
        cache.clear(); cache.set("|", none);
      }
      ctx.add("placements_with_effect", effects);
    } finally { b.close(); }
  },
};
