"use strict";
const fs = require("node:fs");
const { load } = require("../lib/load.js");
const { Bench, words, show, seqs } = require("../lib/harness.js");
const { parseWrite, decode } = require("../lib/exifmodel.js");
const { Real } = require("../lib/realtool.js");
const { FakeChild, READY } = require("../lib/env.js");

const ADD = ["IPTC:CatalogSets", "IPTC:Keywords", "MIE-Doc:Keywords", "XMP-acdsee:Keywords", "XMP-dc:Subject", "XMP-digiKam:TagsList", "XMP-expressionmedia:CatalogSets", "XMP-expressionmedia:People", "XMP-iptcExt:PersonInImage", "XMP-lr:HierarchicalSubject", "XMP-mediapro:CatalogSets", "XMP-mediapro:People", "XMP-microsoft:LastKeywordXMP"];
const REMOVE_ONLY = ["XMP-MP:RegionPersonDisplayName", "XMP-acdsee-rs:ACDSeeRegionName", "XMP-mwg-rs:RegionName", "XMP-xmpDM:Album"];
const COLL = "XMP-mwg-coll:Collections";
const TOK = [" ", "a", "\n", "\t", "\r", "&", ";", "#", "&amp;", "&#65;", "&lt;", ",", "|", "{", "}", "[", "]", "=", "é", "😀", "\x1f", "\0", "\x01", "\ud800", "\udc00", "\ufffe", "\ufdd0", "\u0085", "\u2028", "\u00a0", "-", "<", "\\", "0", "^", "+"];
// what cannot be stored exactly is refused
const storable = (s) => ![...s].some((c) => { const p = c.codePointAt(0); return p < 9 || p === 11 || p === 12 || (p >= 13 && p < 32) || (p >= 0xd800 && p <= 0xdfff) || (p >= 0xfdd0 && p <= 0xfdef) || (p & 0xfffe) === 0xfffe; });
const own = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
function coll(v, complete) {
  if (v === null || typeof v !== "object" || Array.isArray(v) || ![Object.prototype, null].includes(Object.getPrototypeOf(v))) return false;
  const k = Reflect.ownKeys(v);
  if (!k.length || k.some((x) => !["CollectionName", "CollectionURI"].includes(x)) || (complete && k.length !== 2)) return false;
  return k.every((x) => typeof v[x] === "string" && storable(v[x]));
}
// reference: the accepted meaning of one edit, or undefined when it must be refused
function meaning(e) {
  if (e === null || typeof e !== "object" || Array.isArray(e) || !own(e, "tag") || !own(e, "operation")) return undefined;
  const op = e.operation === "add" ? "+" : e.operation === "remove" ? "-" : undefined;
  if (!op) return undefined;
  if (e.tag === COLL) {
    const k = op === "+" ? "value" : "predicate", other = op === "+" ? "predicate" : "value";
    if (!own(e, k) || own(e, other) || !coll(e[k], op === "+")) return undefined;
    return { tag: e.tag, op, v: { ...e[k] } };
  }
  if (!(ADD.includes(e.tag) || (op === "-" && REMOVE_ONLY.includes(e.tag)))) return undefined;
  if (own(e, "predicate") || typeof e.value !== "string" || e.value === "" || !storable(e.value)) return undefined;
  return { tag: e.tag, op, v: e.value };
}
function meanings(edits) {
  if (!Array.isArray(edits) || edits.length === 0) return undefined;
  const m = Array.from(edits, meaning);
  if (m.some((x) => x === undefined)) return undefined;
  for (let i = 0; i < m.length; i++) for (let j = i + 1; j < m.length; j++)
    if (m[i].op === "+" && m[j].op === "-" && m[i].tag === m[j].tag && (typeof m[i].v === "string" ? m[i].v === m[j].v : Object.keys(m[j].v).every((k) => m[i].v[k] === m[j].v[k]))) return undefined;
  return m;
}
const D = "/etv-none/f";
const ver = (c) => c.args.length === 1 && /^-ver$/i.test(c.args[0]);
async function capture(bench, edits, opts) {
  const all = () => bench.env.children.flatMap((c) => c.commands);
  const n = all().length;
  const r = await bench.one(() => bench.et.editTags(D, edits, opts), 20_000);
  return { r, cmds: all().slice(n).filter((c) => !ver(c)) };
}
function sent(cmd) {
  const p = parseWrite(cmd.lines);
  return { p, ops: p.ops.map((o) => { const d = decode(p, o.raw, o.tag === COLL ? "struct" : "list"); return { tag: o.tag, op: o.op, v: o.tag === COLL ? d.v : d.v?.length === 1 ? d.v[0] : d.v, warn: d.warn }; }) };
}
const canon = (l) => show(l.map((x) => ({ tag: x.tag, op: x.op, v: typeof x.v === "object" && x.v ? Object.entries(x.v).sort() : x.v })));

module.exports = {
  id: "C08", level: "model_checking",
  rule: "distinct = edit lists submitted through the public API and judged against the reference meaning",
  bounds: (t) => ({ texts: t === "quick" ? "all texts of up to 2 tokens (36 tokens) for every tag and operation, up to 3 for one list tag" : "up to 3 tokens for all, 4 for one tag", characters: "every code point of the basic plane and the edges of every other plane, alone and inside texts", lists: t === "quick" ? "all edit lists of length <= 2 over 40 edits and <= 3 over 12" : "<= 3 over 40", shapes: "tags x operations x value shapes", mutation: "every mutation of the edit objects while the command is queued", conformance: "replayed on the vendored exiftool (XMP sidecar with existing items)" }),
  shards(tier) {
    const of = tier === "quick" ? 6 : 24;
    return [{ part: "shapes" }, { part: "lists", i: 0, of: 2 }, { part: "lists", i: 1, of: 2 }, { part: "mutate" }, ...Array.from({ length: 6 }, (_, i) => ({ part: "chars", i, of: 6 })), ...Array.from({ length: of }, (_, i) => ({ part: "text", i, of })), { part: "conform", i: 0, of: 2 }, { part: "conform", i: 1, of: 2 }];
  },
  async run(shard, ctx) {
    const M = load(ctx.dist);
    const mk = () => new Bench(M, () => ({ out: "    1 image files updated\n" }), { maxProcs: 1, taskTimeoutMillis: 5000 });
    let bench = mk();
    const judge = async (label, edits, opts, refuse, wantArgs) => {
      const want = refuse ? undefined : meanings(edits);
      const { r, cmds } = await capture(bench, edits, opts);
      ctx.eval(label); ctx.add("transitions", cmds.length || 1);
      const bad = (k, m) => ctx.violate(`${shard.part}:${k}:${label}`.slice(0, 300), `${label}: ${m}`, { label });
      if (want === undefined) {
        if (r.status !== "rejected" || r.threw) bad("accepted", `should reject, ${r.threw ? "threw synchronously" : r.status}`);
        if (cmds.length) bad("sent", `refused edits still sent ${show(cmds[0].lines)}`);
        return;
      }
      if (r.status !== "fulfilled" || cmds.length !== 1) { bad("refused", `valid edits: ${cmds.length} commands, ${r.status} ${r.reason && r.reason.message}`); if (cmds.length > 1) { bench.close(); bench = mk(); } return; }
      const s = sent(cmds[0]);
      if (canon(s.ops) !== canon(want) || s.ops.some((o) => o.warn)) bad("meaning", `ExifTool would apply ${canon(s.ops)}, expected ${canon(want)}`);
      if (s.p.files.length !== 1 || s.p.files[0] !== D) bad("file", show(s.p.files));
      for (const a of wantArgs || []) if (!cmds[0].args.includes(a)) bad("args", `extra argument ${a} missing`);
      return cmds[0];
    };
    try { await this[shard.part](shard, ctx, judge, () => bench, M); } finally { bench.close(); }
    ctx.outcome(shard.part);
  },
  async shapes(shard, ctx, judge) {
    const badTags = ["Keywords", "Subject", "XMP:Subject", "xmp-dc:subject", "XMP-dc:subject", "iptc:Keywords", "XMP-dc:Title", "XMP-iptcExt:PersonInImageName", "all", "XMP-dc:Subject#", "XMP-dc:Subject+", "XMP-dc:Subject ", " XMP-dc:Subject", "XMP-dc:", ":Subject", "constructor", "__proto__", "XMP-mwg-coll:collections", "XMP-mwg-coll:CollectionName", "-XMP-dc:Subject", "", null, undefined, 5, ["XMP-dc:Subject"], { toString: () => "XMP-dc:Subject" }];
    const ops = ["add", "remove", "set", "", "ADD", "Add", undefined, null, "+", ["add"], "constructor"];
    const vals = ["x", "", 5, null, undefined, true, ["x"], ["x", "y"], {}, { CollectionName: "n", CollectionURI: "u" }, { CollectionName: "n" }, { CollectionURI: "u" }, { CollectionURI: 5 }, { CollectionName: "n", CollectionURI: null }, { CollectionName: "", CollectionURI: "" }, { CollectionName: "n", CollectionURI: "u", X: "y" }, { CollectionName: "n", [Symbol("s")]: "q" }, Object.create({ CollectionName: "n" }), [{ CollectionName: "n", CollectionURI: "u" }], new Date(0), new String("x"), "a\nb"];
    const name = (v) => (v !== null && typeof v === "object" ? "o" + vals.indexOf(v) : typeof v + ":" + String(v));
    let n = 0;
    for (const tag of [...ADD, ...REMOVE_ONLY, COLL, ...badTags]) for (const op of ops) for (const v of vals) {
      for (const k of [["value"], ["predicate"], ["value", "predicate"]]) {
        if (k.length === 2 && !(v === "x" || (v && v.CollectionName))) continue;
        const e = { tag, operation: op };
        for (const x of k) e[x] = v;
        await judge(`${show(tag)}|${show(op)}|${name(v)}|${k}`, [e]); n++;
      }
    }
    const good = () => ({ tag: "XMP-dc:Subject", operation: "add", value: "a" });
    for (const [l, x] of [["null", null], ["undef", undefined], ["empty", []], ["object", {}], ["edit", good()], ["string", "x"], ["nulls", [null]], ["arr", [[good()]]], ["inherit", [Object.create(good())]], ["class", [new (class { constructor() { Object.assign(this, good()); } })()]], ["nooperation", [{ tag: "XMP-dc:Subject", value: "a" }]], ["notag", [{ operation: "add", value: "a" }]], ["second", [good(), null]], ["second2", [good(), { tag: "XMP-dc:Title", operation: "add", value: "a" }]], ["sparse", [good(), , good()]], ["arraylike", { 0: good(), length: 1 }]]) {
      if (l === "inherit" || l === "class") { await judge("list:" + l, x, undefined, true); continue; }
      await judge("list:" + l, x);
    }
    // extra arguments
    for (const [args, refuse] of [[["-overwrite_original"], 0], [["-api", "struct=1"], 1], [["-API", "x"], 1], [["-sep", "|"], 1], [["-SEPARATOR", "|"], 1], [["-Sep", ","], 1], [[" -sep", ","], 1], [["\t-api", "struct=0"], 1], [["-overwrite_original", "-sep", ","], 1], [["-preserve"], 0], [[], 0], [["-overwrite_original", "-P"], 0]])
      for (const e of [good(), { tag: COLL, operation: "add", value: { CollectionName: "n,", CollectionURI: "u" } }])
        await judge("args:" + show(args) + e.tag, [e], { writeArgs: args }, !!refuse, args);
    ctx.sample({ shapes: n });
  },
  async text(shard, ctx, judge) {
    let n = 0;
    const deep = ctx.quick ? 3 : 4, all = ctx.quick ? 2 : 3;
    for (const s of words(TOK, deep)) {
      if (n++ % shard.of !== shard.i) continue;
      await judge("add|" + s, [{ tag: "XMP-dc:Subject", operation: "add", value: s }]);
      if (n > 1 + TOK.length + TOK.length ** 2 + (all > 2 ? TOK.length ** 3 : 0)) { if (ctx.quick) continue; }
      for (const t of [...ADD, ...REMOVE_ONLY]) await judge("rm|" + t + s, [{ tag: t, operation: "remove", value: s }]);
      await judge("coll|" + s, [{ tag: COLL, operation: "add", value: { CollectionName: s, CollectionURI: "u" + s } }]);
      await judge("coll2|" + s, [{ tag: COLL, operation: "add", value: { CollectionURI: s, CollectionName: s + "n" } }]);
      await judge("pred|" + s, [{ tag: COLL, operation: "remove", predicate: { CollectionName: s } }, { tag: "IPTC:Keywords", operation: "add", value: "k" }]);
      await judge("pred2|" + s, [{ tag: COLL, operation: "remove", predicate: { CollectionURI: s, CollectionName: "|" + s } }]);
    }
  },
  // every code point of the basic plane, and the last two of every plane, alone and inside text
  async chars(shard, ctx, judge) {
    const cps = Array.from({ length: 0x10000 }, (_, i) => i);
    for (let p = 1; p <= 16; p++) for (const low of [0, 1, 0xfdd0, 0xfdef, 0xfffd, 0xfffe, 0xffff]) cps.push(p * 0x10000 + low);
    for (const p of cps) {
      if (p % shard.of !== shard.i) continue;
      const c = p < 0x10000 ? String.fromCharCode(p) : String.fromCodePoint(p), l = p.toString(16);
      await judge("c1|" + l, [{ tag: "XMP-dc:Subject", operation: "add", value: c }]);
      await judge("c2|" + l, [{ tag: "IPTC:Keywords", operation: "remove", value: "a" + c + "b" }, { tag: COLL, operation: "add", value: { CollectionName: c + "n", CollectionURI: "u" } }]);
      if (ctx.quick && p >= 0x300 && p < 0xd700) continue;
      await judge("c3|" + l, [{ tag: COLL, operation: "remove", predicate: { CollectionURI: "u" + c } }]);
      await judge("c4|" + l, [{ tag: COLL, operation: "add", value: { CollectionName: "n", CollectionURI: c } }]);
      for (const t of ADD) await judge("c5|" + t + l, [{ tag: t, operation: "add", value: "x" + c }]);
    }
  },
  async lists(shard, ctx, judge) {
    const es = [];
    for (const tag of ["XMP-dc:Subject", "IPTC:Keywords", "XMP-lr:HierarchicalSubject"]) for (const operation of ["add", "remove"]) for (const value of ["a", "b", "A", "a "]) es.push({ tag, operation, value });
    for (const value of [{ CollectionName: "n", CollectionURI: "u" }, { CollectionName: "n", CollectionURI: "v" }]) es.push({ tag: COLL, operation: "add", value });
    for (const predicate of [{ CollectionName: "n" }, { CollectionURI: "u" }, { CollectionURI: "v", CollectionName: "n" }, { CollectionName: "m", CollectionURI: "u" }, { CollectionName: "" }]) es.push({ tag: COLL, operation: "remove", predicate });
    es.push({ tag: "XMP-xmpDM:Album", operation: "remove", value: "a" }, { tag: "XMP-mwg-rs:RegionName", operation: "remove", value: "a" }, { tag: "XMP-dc:Subject", operation: "add", value: "" }, { tag: "XMP-xmpDM:Album", operation: "add", value: "a" }, { tag: "XMP-dc:Subject", operation: "remove", value: "&amp;" }, { tag: "XMP-dc:Subject", operation: "add", value: "&amp;" }, { tag: "XMP-dc:Subject", operation: "add", value: "x\ty" });
    let n = 0;
    const go = async (ix, from) => { if (n++ % shard.of === shard.i) await judge("l:" + ix.join(","), ix.map((i) => from[i])); };
    const small = es.filter((e, i) => [0, 1, 4, 5, 8, 12, 24, 26, 27, 28, 31, 35].includes(i));
    for (const ix of seqs(es.map((_, i) => i), ctx.quick ? 2 : 3, 1)) await go(ix, es);
    for (const ix of seqs(small.map((_, i) => i), ctx.quick ? 3 : 4, 3)) await go(ix.map((i) => es.indexOf(small[i])), es);
  },
  async mutate(shard, ctx, judge, bench0, M) {
    const mkEdits = () => [{ tag: "XMP-dc:Subject", operation: "add", value: "orig" }, { tag: COLL, operation: "add", value: { CollectionName: "n", CollectionURI: "u" } }, { tag: COLL, operation: "remove", predicate: { CollectionName: "p" } }, { tag: "IPTC:Keywords", operation: "remove", value: "k" }];
    const muts = {
      value: (e) => { e[0].value = "changed"; }, bad: (e) => { e[0].value = "x\n-execute"; }, tag: (e) => { e[0].tag = "IPTC:Keywords"; }, op: (e) => { e[0].operation = "remove"; },
      nested: (e) => { e[1].value.CollectionName = "changed"; }, nestedAdd: (e) => { e[1].value.Extra = "x"; }, pred: (e) => { e[2].predicate.CollectionName = "changed"; }, predDel: (e) => { delete e[2].predicate.CollectionName; },
      push: (e) => { e.push({ tag: "XMP-dc:Title", operation: "add", value: "z" }); }, pop: (e) => { e.pop(); }, clear: (e) => { e.length = 0; }, swap: (e) => { e.reverse(); }, replace: (e) => { e[3] = { tag: "IPTC:Keywords", operation: "add", value: "w" }; },
    };
    for (const [name, f] of Object.entries(muts)) for (const name2 of [null, ...Object.keys(muts)]) for (const when of ["queued", "same-tick"]) {
      const held = [];
      const b = new Bench(M, null, { maxProcs: 1, taskTimeoutMillis: 50_000 }, (env) => new FakeChild(env, { onCommand: (c, cmd) => { if (ver(cmd)) queueMicrotask(() => c.out("13.59\n" + READY)); else held.push([c, cmd]); }, onExitCommand: (c) => c.exit(0) }));
      try {
        const edits = mkEdits(), want = meanings(mkEdits());
        const first = b.et.write("/etv-none/first", { Title: "x" });
        await b.env.pump(() => held.length === 1, 30_000);
        const p = b.et.editTags(D, edits).then(() => "ok", (e) => e);
        const args = { writeArgs: ["-overwrite_original"] };
        const p2 = b.et.editTags(D + "2", [{ tag: "IPTC:Keywords", operation: "remove", value: "k" }], args).then(() => "ok", (e) => e);
        if (when === "queued") await b.env.drain();
        f(edits); if (name2) { try { muts[name2](edits); } catch { /* shape already changed */ } }
        if (when === "queued") args.writeArgs.push("-sep", ",");
        const alt = when === "same-tick" ? meanings(edits) : undefined;
        held[0][0].out("    1 image files updated\n" + READY);
        await b.env.pump(() => held.length === 2, 30_000);
        const cmd = held[1] && held[1][1];
        ctx.eval(`mut|${name}|${name2}|${when}`); ctx.add("transitions", 2);
        const got = cmd && cmd.args.includes(D) ? canon(sent(cmd).ops) : undefined;
        const ok = got === canon(want) || (when === "same-tick" && (alt ? got === canon(alt) : got === undefined));
        if (!ok) ctx.violate(`mutate:${name}:${name2}:${when}`, `edits changed after the call (${name}, ${name2}, ${when}): sent ${got}`);
        if (cmd && cmd.args.includes(D)) { held[1][0].out("    1 image files updated\n" + READY); await b.env.pump(() => held.length === 3, 30_000); }
        const c2 = held.at(-1)[1];
        if (when === "queued" && c2.args.includes(D + "2") && /^-sep$/m.test(c2.args.slice(c2.args.indexOf("-overwrite_original")).join("\n"))) ctx.violate(`mutate:args:${name}`, `extra arguments changed after the call reached the child: ${show(c2.args)}`);
        void first; void p; void p2;
      } finally { b.close(); }
    }
  },
  // the vendored exiftool applies the sent edits exactly
  async conform(shard, ctx, judge, bench) {
    if (!Real.available()) { ctx.outcome("conformance skipped"); return; }
    const texts = [...words(TOK.filter((t) => t !== "\x1f" && storable(t)), ctx.quick ? 1 : 2, 1), "a&amp;b", "&#38;", "&#38;lt;", " &", "| x", "{a=b}", "[a,b]", "a, b", " lead", "  two", "tr ", "\nx", "&nbsp;", "&#x41;", "=x", "a=b", "^", "&amp;amp;", "|,|"].filter(storable);
    const b = bench();
    b.env.uninstall();
    const real = new Real();
    let k = 0;
    try {
      for (const s of texts) {
        if (k++ % shard.of !== shard.i) continue;
        const f = real.path(`f${k}.xmp`);
        const apply = async (edits) => {
          b.env.install();
          const { cmds } = await capture(b, edits);
          b.env.uninstall();
          if (cmds.length !== 1) return ctx.violate(`conform:refused:${JSON.stringify(s)}`, `edits with ${show(s)} not sent`);
          await real.exec([...cmds[0].args.slice(0, -1).map((l) => (l === D ? f : l)), ...(cmds[0].args.at(-1) === D ? [f] : [cmds[0].args.at(-1)]), "-overwrite_original"]);
          ctx.add("traces"); ctx.add("transitions");
        };
        const expect = async (tag, want, step) => {
          const j = fs.existsSync(f) ? (await real.json(f, ["-" + tag])).v?.[tag] : undefined;
          const norm = (v) => v === undefined ? [] : (Array.isArray(v) ? v : [v]).map((x) => (typeof x === "object" ? show(Object.entries(x).map(([a, c]) => [a, String(c)]).sort()) : String(x)));
          // (ExifTool inserts new items where the first removed one was)
          if (show(norm(j).sort()) !== show(norm(want).sort())) ctx.violate(`conform:${step}:${JSON.stringify(s)}`, `after ${step} with ${show(s)} the file holds ${show(j)}, expected ${show(want)}`);
        };
        const T = "XMP-dc:Subject";
        await apply([{ tag: T, operation: "add", value: "keep" }, { tag: T, operation: "add", value: s }, { tag: T, operation: "add", value: s + "x" }]);
        await expect(T, ["keep", s, s + "x"], "add");
        await apply([{ tag: T, operation: "remove", value: s }, { tag: T, operation: "add", value: "end" }]);
        await expect(T, ["keep", s + "x", "end"], "remove");
        const C1 = { CollectionName: s, CollectionURI: "u:" + s }, C2 = { CollectionName: "other", CollectionURI: s };
        await apply([{ tag: COLL, operation: "add", value: C1 }, { tag: COLL, operation: "add", value: C2 }]);
        await expect(COLL, [C1, C2], "coll add");
        await apply([{ tag: COLL, operation: "remove", predicate: { CollectionName: s } }]);
        await expect(COLL, [C2], "coll remove");
        fs.rmSync(f, { force: true });
      }
    } finally { real.close(); b.env.install(); }
  },
};
