"use strict";
const { load } = require("../lib/load.js");
const { Bench, words, show, product } = require("../lib/harness.js");
const { parseWrite, decode, unescape } = require("../lib/exifmodel.js");
const { Real } = require("../lib/realtool.js");
const fs = require("node:fs");

const TOK = [" ", "a", "\n", "\t", "\r", "&", ";", "#", "&amp;", "&#65;", "&x;", ",", "|", "{", "}", "[", "]", "=", "é", "😀", "<", "-", "\\", '"', "'", "\u00a0", "\u2028", "\u0085", "\u3000", "\ufeff", "0", "$", "%", "@", "\v", "\f"];
const entityLike = (s) => /&#?\w+;/.test(s);
const D = "/etv-none/f";
const respond = () => ({ out: "    1 image files updated\n" });
const eq = (a, b) => show(sortKeys(a)) === show(sortKeys(b));
function sortKeys(v) { return Array.isArray(v) ? v.map(sortKeys) : v && typeof v === "object" ? Object.fromEntries(Object.keys(v).sort().map((k) => [k, sortKeys(v[k])])) : v; }

// shapes: text s -> tags to write + expected decoded values
const SHAPES = {
  scalar: { tag: "XMP-dc:Source", kind: "scalar", value: (s) => s, want: (s) => (s === "" ? undefined : unescape(s)) },
  list: { tag: "XMP-dc:Subject", kind: "list", value: (s) => [s, "b", s], want: (s) => [s, "b", s].map(unescape) },
  list1: { tag: "XMP-dc:Subject", kind: "list", value: (s) => [s], want: (s) => (s === "" ? undefined : [unescape(s)]) },
  struct: { tag: "XMP-iptcExt:ArtworkOrObject", kind: "struct", value: (s) => ({ AOTitle: s, AOSource: "q" }), want: (s) => ({ AOTitle: s, AOSource: "q" }), st: 1 },
  structList: { tag: "XMP-iptcExt:ArtworkOrObject", kind: "struct", value: (s) => [{ AOTitle: s }, { AOSource: s, AOTitle: "z" }], want: (s) => [{ AOTitle: s }, { AOSource: s, AOTitle: "z" }], st: 1 },
  listInStruct: { tag: "XMP-iptcExt:ArtworkOrObject", kind: "struct", value: (s) => [{ AOCreator: ["x", s, s], AOTitle: s }], want: (s) => [{ AOCreator: ["x", s, s], AOTitle: s }], st: 1 },
  list1InStruct: { tag: "XMP-iptcExt:ArtworkOrObject", kind: "struct", value: (s) => ({ AOCreator: [s] }), want: (s) => ({ AOCreator: [s] }), st: 1 },
  nested: { tag: "XMP-mwg-rs:RegionInfo", kind: "struct", value: (s) => ({ AppliedToDimensions: { W: 3, Unit: s }, RegionList: [{ Name: s, Area: { X: 0.5, Unit: s } }, { Name: "n", Description: s }] }), want: (s) => ({ AppliedToDimensions: { W: "3", Unit: s }, RegionList: [{ Name: s, Area: { X: "0.5", Unit: s } }, { Name: "n", Description: s }] }), st: 1 },
};
function* points() { for (let c = 1; c <= 0xffff; c++) if (c < 0xd800 || c > 0xdfff) yield c; for (let p = 1; p <= 16; p++) for (const c of [0, 1, 0x20, 0x85, 0xa0, 0xfffd, 0xfffe, 0xffff]) yield p * 0x10000 + c; }
async function capture(bench, tags, opts) {
  const ch = () => bench.env.children.flatMap((c) => c.commands);
  const n = ch().length;
  const r = await bench.one(() => bench.et.write(D, tags, opts), 20_000);
  const cmds = ch().slice(n).filter((c) => !(c.args.length === 1 && /^-ver$/i.test(c.args[0])));
  return { r, cmds };
}

module.exports = {
  id: "C07", level: "model_checking",
  rule: "distinct = (shape, value) pairs written through the public API whose sent arguments were decoded by the ExifTool model",
  bounds: (t) => ({ tokens: TOK.length, textTokens: t === "quick" ? 3 : 4, codePoints: "every BMP code point but NUL and surrogates, 8 of every other plane", shapes: Object.keys(SHAPES).length, scalars: "numbers, booleans, null, dates, times", gps: "full product of latitude/longitude/altitude values and references, and pairs of writes sharing one tags object", conformance: t === "quick" ? "all texts of up to 1 token in 7 shapes plus pairs with white space or delimiters, replayed on the vendored exiftool" : "all texts of up to 2 tokens" }),
  assumptions: ["structure fields holding entity-like text are outside the claim (documented interpretation)", "the ASCII unit separator cannot be represented in list items and is excluded"],
  shards(tier) {
    const of = tier === "quick" ? 12 : 64;
    return [...Array.from({ length: of }, (_, i) => ({ part: "text", i, of })), { part: "other" }, { part: "gps" }, ...Array.from({ length: 8 }, (_, i) => ({ part: "points", i, of: 8 })), ...Array.from({ length: 4 }, (_, i) => ({ part: "conform", i, of: 4 }))];
  },
  async run(shard, ctx) {
    const M = load(ctx.dist);
    let bench = new Bench(M, respond, { maxProcs: 1, taskTimeoutMillis: 5000 });
    const fresh = () => { bench.close(); bench = new Bench(M, respond, { maxProcs: 1, taskTimeoutMillis: 5000 }); };
    try {
      if (shard.part === "text") await this.text(shard, ctx, () => bench, fresh);
      else if (shard.part === "points") await this.points(shard, ctx, bench);
      else if (shard.part === "other") await this.other(ctx, bench, M);
      else if (shard.part === "gps") await this.gps(ctx, bench);
      else await this.conform(shard, ctx, bench);
    } finally { bench.close(); }
  },
  check(ctx, cmd, name, s) {
    const sh = SHAPES[name];
    if (sh.st && entityLike(s)) return;
    const p = parseWrite(cmd.lines);
    const ops = p.ops.filter((o) => o.tag === sh.tag);
    if (p.ops.length !== 1 || ops.length !== 1 || ops[0].op !== "") return ctx.violate(`${name}:ops:${JSON.stringify(s)}`, `writing ${show(sh.value(s))}: assignments ${show(p.ops)}`, { name, s });
    const d = decode(p, ops[0].raw, sh.kind);
    const want = sh.want(s);
    if (d.warn || !eq(d.v, want)) ctx.violate(`${name}:decode:${JSON.stringify(s)}`, `writing ${show(sh.value(s))} as ${name}: ExifTool decodes ${show(d.v)}, expected ${show(want)}; argument ${show(ops[0].raw)}`, { name, s });
    return d.v;
  },
  async text(shard, ctx, bench, fresh) {
    let n = 0;
    for (const s of words(TOK, ctx.quick ? 3 : 4)) {
      if (n++ % shard.of !== shard.i) continue;
      // all shapes for short texts; long texts rotate through delimiters-relevant shapes
      for (const name of Object.keys(SHAPES)) {
        const { r, cmds } = await capture(bench(), { [SHAPES[name].tag]: SHAPES[name].value(s) });
        ctx.eval(name + "|" + s); ctx.add("transitions");
        if (r.status !== "fulfilled" || cmds.length !== 1) { ctx.violate(`${name}:rejected:${JSON.stringify(s)}`, `writing ${show(SHAPES[name].value(s))} as ${name}: ${cmds.length} commands, ${r.status} ${r.reason && r.reason.message}`, { name, s }); if (cmds.length > 1) fresh(); continue; }
        this.check(ctx, cmds[0], name, s);
      }
      if (ctx.samples.length < 2 && s.length > 3) ctx.sample({ text: s, shapes: Object.keys(SHAPES) });
    }
    ctx.outcome("text");
  },
  // every code point that UTF-8 can carry (the whole BMP, and the corners of each other
  // plane): on its own at both ends of a text, and sixteen to a text in lists and structures
  async points(shard, ctx, bench) {
    const write = async (name, s) => {
      const { r, cmds } = await capture(bench, { [SHAPES[name].tag]: SHAPES[name].value(s) });
      ctx.eval(name + "|" + s); ctx.add("transitions");
      if (r.status !== "fulfilled" || cmds.length !== 1) { ctx.violate(`${name}:rejected:${JSON.stringify(s)}`, `writing ${show(SHAPES[name].value(s))} as ${name}: ${cmds.length} commands, ${r.status} ${r.reason && r.reason.message}`, { name, s }); return; }
      this.check(ctx, cmds[0], name, s);
    };
    let pack = "";
    const flush = async () => { if (pack) for (const name of ["list", "structList", "listInStruct"]) await write(name, pack); pack = ""; };
    for (const c of points()) {
      if ((c >> 4) % shard.of !== shard.i) continue;
      const t = String.fromCodePoint(c);
      await write("scalar", t + "a" + t);
      if (c !== 0x1f) pack += t + (c % 2 ? "a" : "");
      if ((c & 15) === 15) await flush();
    }
    await flush();
    ctx.outcome("points");
  },
  async other(ctx, bench, M) {
    const num = [0, -0, 1, -1, 0.1, -0.5, 1e21, 1e-7, 123456789.125, Number.MAX_SAFE_INTEGER, 5e-324, 1.7976931348623157e308];
    const one = async (label, v, tag, kind, ok) => {
      const { r, cmds } = await capture(bench, { [tag]: v });
      ctx.eval(label + "|" + tag + "|" + show(v)); ctx.add("transitions");
      if (r.status !== "fulfilled" || cmds.length !== 1) return ctx.violate(`${label}:rejected`, `${label}: ${r.reason}`);
      const p = parseWrite(cmds[0].lines), o = p.ops.find((x) => x.tag === tag);
      const d = o && decode(p, o.raw, kind);
      if (!d || d.warn || p.ops.length !== 1 || !ok(d.v)) ctx.violate(`${label}:${show(v)}`, `${label}: argument ${show(o && o.raw)} decodes to ${show(d && d.v)}`);
    };
    const nk = ["XMP-xmp:Rating", "GPSAltitude#", "Orientation#"];
    for (const v of num) { await one("number", v, nk[0], "scalar", (x) => Number(x) === v || (v === 0 && Number(x) === 0)); await one("numberlist", [v, 2], "Subject", "list", (x) => x.length === 2 && Number(x[0]) === Number(v) && x[1] === "2"); await one("numstruct", { W: v }, "RegionInfo", "struct", (x) => Number(x.W) === Number(v)); await one("numlistInStruct", { W: [v, -2] }, "RegionInfo", "struct", (x) => Number(x.W[0]) === Number(v) && x.W[1] === "-2"); }
    for (const v of [true, false]) { await one("boolean", v, "XMP-xmp:Marked", "scalar", (x) => x === (v ? "True" : "False")); for (const [l, w, x] of [["InStruct", { W: [v, 1] }, (x) => eq(x, { W: [v ? "True" : "False", "1"] })], ["InStructs", [{ W: [v] }, { W: [0, v] }], (x) => eq(x, [{ W: [v ? "True" : "False"] }, { W: ["0", v ? "True" : "False"] }])], ["InList", [[v, "x"], "y"], (x) => eq(x, [[v ? "True" : "False", "x"], "y"])]]) await one("boolean" + l, w, "RegionInfo", "struct", x); await one("booleanlist", [v, true], "XMP-xmp:Marked", "list", (x) => eq(x, [v ? "True" : "False", "True"])); }
    for (const v of [null, undefined, ""]) await one("delete", v, "Title", "scalar", (x) => x === undefined);
    await one("emptylist", [], "Subject", "list", (x) => x === undefined);
    const two = (n, w = 2) => String(n).padStart(w, "0");
    const { DateTime } = require(require.resolve("luxon", { paths: [ctx.dist] }));
    const dates = [];
    for (const [y, mo, d, h, mi, s, ms] of [[2024, 2, 29, 23, 59, 59, 999], [2000, 1, 1, 0, 0, 0, 0], [1999, 12, 31, 12, 30, 1, 20], [2023, 10, 9, 8, 7, 6, 5]])
      for (const [zone, off] of [[undefined, ""], ["UTC", "+00:00"], ["UTC+5:45", "+05:45"], ["UTC-3:30", "-03:30"], ["UTC+14", "+14:00"]])
        for (const m of [ms, undefined]) {
          const txt = `${y}:${two(mo)}:${two(d)} ${two(h)}:${two(mi)}:${two(s)}` + (m === undefined ? "" : "." + two(m, 3));
          const raw = txt + (zone === undefined ? "" : off);
          const e = M.ExifDateTime.fromEXIF(raw);
          const okdt = (x) => { const q = /^(\d+):(\d\d):(\d\d) (\d\d):(\d\d):(\d\d)(?:\.(\d+))?(Z|[-+]\d\d:\d\d)?$/.exec(x); return q && +q[1] === y && +q[2] === mo && +q[3] === d && +q[4] === h && +q[5] === mi && +q[6] === s && Number("0." + (q[7] ?? "0")) * 1000 === (m ?? 0) && (q[8] ?? "").replace("Z", "+00:00") === off; };
          const e2 = new M.ExifDateTime(y, mo, d, h, mi, s, m, e.tzoffsetMinutes, undefined, zone);
          dates.push([e, okdt], [e2, okdt]);
          if (zone && m === undefined) dates.push([DateTime.fromObject({ year: y, month: mo, day: d, hour: h, minute: mi, second: s }, { zone }), okdt]);
        }
    for (const [e, ok] of dates) {
      await one("datetime", e, "DateTimeOriginal", "scalar", ok);
      await one("datetimelist", [e, e], "XMP-dc:Date", "list", (x) => x.length === 2 && x.every(ok));
      await one("datetimestruct", { When: e, Action: "a" }, "History", "struct", (x) => ok(x.When) && x.Action === "a");
      await one("datetimestructs", [{ When: e }, { When: e }], "History", "struct", (x) => x.length === 2 && x.every((q) => ok(q.When)));
    }
    for (const [y, m, d, t] of [[2024, 2, 29, "2024:02:29"], [1999, 12, 31, "1999:12:31"], [2020, 5, undefined, "2020:05"], [2020, undefined, undefined, "2020"]]) await one("date", new M.ExifDate(y, m, d), "XMP-dc:Date", "scalar", (x) => x === t);
    for (const [h, m, s, ms, t] of [[0, 0, 0, undefined, "00:00:00"], [23, 59, 58, 7, "23:59:58.007"], [1, 2, 3, 450, "01:02:03.450"]]) await one("time", new M.ExifTime(h, m, s, ms), "IPTC:TimeCreated", "scalar", (x) => x === t || x === t.replace(/0+$/, ""));
    for (const v of [() => 1, Symbol("x"), NaN, Infinity, new Map(), { a: true }, { a: null }, [[Symbol("q")]], { a: () => 1 }]) {
      // values that cannot be expressed are refused, or (documented) expressed exactly
      const { r, cmds } = await capture(bench, { Title: v });
      ctx.eval("odd|" + String(typeof v) + show(v)); ctx.add("transitions");
      if (r.status === "fulfilled" && !(typeof v === "object" && v && (("a" in v) || Array.isArray(v)))) ctx.violate("odd:" + String(typeof v) + show(v), `unencodable ${String(typeof v)} was sent: ${show(cmds[0]?.lines)}`);
    }
    ctx.outcome("other");
  },
  async gps(ctx, bench) {
    const absent = Symbol("absent");
    const lat = [absent, 0, 12.5, -12.5, -0.25, 90, -90, null, "12.5"], alt = [absent, 0, 10.5, -10.5, -0.5, 0.5, -1e-7, null, "10 m"];
    const refs = [absent, "N", "S", 1, -1];
    const mk = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== absent));
    const sign = (x) => (/^s/i.test(x) || /^w/i.test(x) || /^below/i.test(x) || /^-/.test(x) || x === "1b" ? -1 : 1);
    const judge = (key, tags, cmds, detail) => {
      const p = parseWrite(cmds[0].lines);
      const got = (t) => p.ops.filter((o) => o.tag === t);
      for (const [t, v] of Object.entries(tags)) {
        const g = got(t);
        if (g.length !== 1) { ctx.violate(`${key}:${t}`, `${show(tags)}: ${t} assigned ${g.length} times`, detail); continue; }
        const d = decode(p, g[0].raw, "scalar").v;
        if (d !== (v === null ? undefined : String(v)) && !(t === "GPSPosition")) ctx.violate(`${key}:${t}`, `${show(tags)}: ${t} is ${show(d)}`, detail);
      }
      for (const [t, rt] of [["GPSLatitude", "GPSLatitudeRef"], ["GPSLongitude", "GPSLongitudeRef"], ["GPSAltitude", "GPSAltitudeRef"]]) {
        if (rt in tags) continue;
        const v = tags[t], g = got(rt);
        if (typeof v === "number") {
          if (g.length !== 1 || g[0].raw === "" || sign(decode(p, g[0].raw, "scalar").v) !== (v < 0 ? -1 : 1)) ctx.violate(`${key}:${rt}`, `${show(tags)}: ${rt} is ${show(g)}`, detail);
        } else if (v === null) { if (g.length !== 1 || g[0].raw !== "") ctx.violate(`${key}:${rt}`, `${show(tags)}: ${rt} is ${show(g)} though ${t} is deleted`, detail); }
        else if (g.length) ctx.violate(`${key}:${rt}`, `${show(tags)}: unexpected ${show(g)}`, detail);
      }
      if (!("GPSPosition" in tags)) {
        const g = got("GPSPosition"), both = typeof tags.GPSLatitude === "number" && typeof tags.GPSLongitude === "number";
        for (const x of g) { const [a, b] = decode(p, x.raw, "scalar").v.split(/[, ]+/).map(Number); if (!both || a !== tags.GPSLatitude || b !== tags.GPSLongitude) ctx.violate(`${key}:pos`, `${show(tags)}: GPSPosition ${show(g)}`, detail); }
      }
      const allowed = new Set([...Object.keys(tags), "GPSLatitudeRef", "GPSLongitudeRef", "GPSAltitudeRef", "GPSPosition"]);
      for (const o of p.ops) if (!allowed.has(o.tag) || o.op) ctx.violate(`${key}:extra`, `${show(tags)}: unexpected ${show(o)}`, detail);
    };
    for (const o of product({ GPSLatitude: lat, GPSLatitudeRef: refs, GPSLongitude: lat, GPSLongitudeRef: [absent, "W", "E", -1], GPSAltitude: [absent, -10.5] })) {
      const tags = mk(o), copy = { ...tags };
      if (Object.keys(tags).length === 0) continue;
      const { r, cmds } = await capture(bench, tags);
      ctx.eval("gps|" + show(copy)); ctx.add("transitions");
      if (r.status !== "fulfilled" || cmds.length !== 1) { ctx.violate("gps:rejected:" + show(copy), String(r.reason)); continue; }
      judge("gps:" + show(copy), copy, cmds);
    }
    for (const o of product({ GPSAltitude: alt, GPSAltitudeRef: [absent, 0, 1, "Above Sea Level", "Below Sea Level"], Title: [absent, "x"] })) {
      const tags = mk(o), copy = { ...tags };
      if (Object.keys(tags).length === 0) continue;
      const { cmds } = await capture(bench, tags);
      ctx.eval("alt|" + show(copy)); ctx.add("transitions");
      judge("alt:" + show(copy), copy, cmds);
    }
    // two writes that share one (edited) object: the second must follow its own values
    for (const a of lat.filter((x) => x !== absent)) for (const b of lat.filter((x) => x !== absent)) for (const key of ["GPSLatitude", "GPSLongitude", "GPSAltitude"]) {
      const tags = { [key]: a };
      await capture(bench, tags);
      tags[key] = b;
      const { cmds } = await capture(bench, tags);
      ctx.eval(`shared|${key}|${a}|${b}`); ctx.add("transitions", 2);
      judge(`shared:${key}:${a}:${b}`, { [key]: b }, cmds);
    }
    ctx.outcome("gps");
  },
  // the model's decoding equals what the vendored exiftool stores
  async conform(shard, ctx, bench) {
    if (!Real.available()) { ctx.outcome("conformance skipped: no perl"); return; }
    const cases = [];
    const CT = TOK.filter((t) => !/[\v\f]/.test(t));
    const two = ctx.quick ? [...CT.map((t) => t), ...[" ", "\n", "&", "|", ",", "[", "{"].flatMap((a) => ["a", "]", " ", ";", "}"].map((b) => a + b))] : [...words(CT, 2, 1)];
    for (const s of two) for (const n of Object.keys(SHAPES)) if (!(SHAPES[n].st && entityLike(s))) cases.push([n, s]);
    bench.env.uninstall();
    const real = new Real();
    try {
      let k = 0;
      for (const [n, s] of cases) {
        if (k++ % shard.of !== shard.i) continue;
        bench.env.install();
        const { cmds } = await capture(bench, { [SHAPES[n].tag]: SHAPES[n].value(s) });
        bench.env.uninstall();
        if (cmds.length !== 1) continue;
        const f = real.path("f" + k + ".xmp");
        const lines = cmds[0].args.map((l) => (l === D ? f : l));
        const w = await real.exec(lines);
        const d = decode(parseWrite(cmds[0].lines), parseWrite(cmds[0].lines).ops[0].raw, SHAPES[n].kind);
        let got;
        if (fs.existsSync(f)) { const r = await real.json(f, ["-" + SHAPES[n].tag]); got = r.v && r.v[SHAPES[n].tag]; fs.rmSync(f); }
        ctx.add("traces"); ctx.add("transitions");
        const norm = (v) => Array.isArray(v) ? v.map(norm) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([a, b]) => [a, norm(b)])) : v === undefined ? v : String(v);
        let want = d.v;
        if (n === "struct" || n === "list1InStruct") want = [want];
        if (!eq(norm(got), norm(want))) ctx.violate(`conform:${n}:${JSON.stringify(s)}`, `exiftool stored ${show(got)} for ${show(SHAPES[n].value(s))}; the model decodes ${show(d.v)} from ${show(lines.at(-3))} (${w.err.trim()})`, { n, s });
      }
    } finally { real.close(); bench.env.install(); }
    ctx.outcome("conform");
  },
};
