"use strict";
const fs = require("node:fs");
const path = require("node:path");
// directory creation by the extraction calls is only recorded, never performed
const made = [];
const stub = (p) => { if (String(p).includes("\0")) throw new Error("null bytes"); made.push(p); };
const { load } = require("../lib/load.js");
const { Bench, words, show } = require("../lib/harness.js");
const { isOption, OPTION_WORDS, filterLine } = require("../lib/argmodel.js");
const { expandDest } = require("../lib/fmtmodel.js");
const { json } = require("../lib/answers.js");

const M0 = "Neutral";
const D = "/etv-none/"; // stand-in directory, never touched
const POS = {
  "read.file": { call: (et, t) => et.read(D + t), file: 1 },
  "read.relfile": { call: (et, t) => et.read(t), file: 1 },
  "read.numericTags": { call: (et, t) => et.read(D + "f", { numericTags: ["Orientation", t, "Rating"] }), tag: 1 },
  "read.readArgs": { call: (et, t) => et.read(D + "f", { readArgs: ["-fast", t, "-q"] }), arg: 1 },
  "readRaw.file": { call: (et, t) => et.readRaw(t), file: 1 },
  "readRaw.readArgs": { call: (et, t) => et.readRaw(D + "f", { readArgs: ["-fast", t] }), arg: 1 },
  "write.file": { call: (et, t) => et.write(D + t, { Title: "x" }), file: 1 },
  "write.key": { call: (et, t) => et.write(D + "f", { Artist: "q", [t]: "Value", Rating: 3 }), tag: 1 },
  "write.keyNull": { call: (et, t) => et.write(D + "f", { [t]: null }), tag: 1 },
  "write.string": { call: (et, t) => et.write(D + "f", { Title: t, Rating: 3 }), val: 1 },
  "write.list": { call: (et, t) => et.write(D + "f", { Subject: ["a", t, "b"], Rating: 3 }), val: 1 },
  "write.structKey": { call: (et, t) => et.write(D + "f", { History: { [t]: "v" }, Rating: 3 }), val: 1 },
  "write.structVal": { call: (et, t) => et.write(D + "f", { History: { When: t }, Rating: 3 }), val: 1 },
  "write.structList": { call: (et, t) => et.write(D + "f", { History: [{ When: t }, { When: "z", A: [t] }], Rating: 3 }), val: 1, multi: 1 },
  "write.writeArgs": { call: (et, t) => et.write(D + "f", { Title: "x" }, { writeArgs: ["-overwrite_original", t] }), arg: 1 },
  "edit.file": { call: (et, t) => et.editTags(t, [{ tag: "XMP-dc:Subject", operation: "add", value: "a" }]), file: 1 },
  "edit.tag": { call: (et, t) => et.editTags(D + "f", [{ tag: t, operation: "add", value: "a" }]), refuse: 1 },
  "edit.operation": { call: (et, t) => et.editTags(D + "f", [{ tag: "XMP-dc:Subject", operation: t, value: "a" }]), refuse: 1 },
  "edit.add": { call: (et, t) => et.editTags(D + "f", [{ tag: "XMP-dc:Subject", operation: "add", value: t }, { tag: "IPTC:Keywords", operation: "remove", value: "b" }]), val: 1 },
  "edit.remove": { call: (et, t) => et.editTags(D + "f", [{ tag: "IPTC:Keywords", operation: "remove", value: t }]), val: 1 },
  "edit.collection": { call: (et, t) => et.editTags(D + "f", [{ tag: "XMP-mwg-coll:Collections", operation: "add", value: { CollectionName: t, CollectionURI: "u:" + t } }]), val: 1, multi: 1 },
  "edit.predicate": { call: (et, t) => et.editTags(D + "f", [{ tag: "XMP-mwg-coll:Collections", operation: "remove", predicate: { CollectionURI: t } }]), val: 1 },
  "delete.file": { call: (et, t) => et.deleteAllTags(t), file: 1 },
  "delete.retain": { call: (et, t) => et.deleteAllTags(D + "f", { retain: ["Artist", t] }), tag: 1, multi: 1 },
  "bin.tag": { call: (et, t) => et.extractBinaryTag(t, D + "f", D + "g"), tag: 1 },
  "bin.src": { call: (et, t) => et.extractBinaryTag("ThumbnailImage", D + t, D + "g"), file: 1 },
  "bin.dest": { call: (et, t) => et.extractBinaryTag("ThumbnailImage", D + "f", D + t, { forceWrite: true }), file: 1, dest: 1 },
  "buf.tag": { call: (et, t) => et.extractBinaryTagToBuffer(t, D + "f"), tag: 1 },
  "buf.file": { call: (et, t) => et.extractBinaryTagToBuffer("ThumbnailImage", t), file: 1 },
  "thumb.src": { call: (et, t) => et.extractThumbnail(D + t, D + "g"), file: 1 },
  "preview.dest": { call: (et, t) => et.extractPreview(D + "f", D + t), file: 1, dest: 1 },
  "jfr.src": { call: (et, t) => et.extractJpgFromRaw(D + t, D + "g"), file: 1 },
  "rewrite.in": { call: (et, t) => et.rewriteAllTags(D + t, D + "g"), file: 1 },
  "rewrite.out": { call: (et, t) => et.rewriteAllTags(D + "f", D + t), file: 1, dest: 1 },
};
const TOK = ["\n", "\r", "\0", "-execute", "\n-execute\n", "-stay_open", "=", "<", ">", "@", "#", "&#xa;", "&#10;", "\x1f", "|", "{", "}", "[", "]", ",", " ", "\t", "a", "é", "\u2028", "\u0085", "%", "$", "'", '"', "/", ";", "&", "+", "-", ":", "^", "*", "\v", "\f", "−", "\\"];

const respond = (c) => c.args.includes("-json") ? { out: json({ SourceFile: c.args.at(-2) ?? "", A: 1 }) } : { out: "    1 image files updated\n" };

async function one(bench, ch0, spec, t) {
  const before = bench.env.children.map((c) => [(c.rawIn || "").length, c.commands.length]);
  const r = await bench.one(() => spec.call(bench.et, t), 20_000);
  let raw = "", cmds = [];
  bench.env.children.forEach((c, i) => {
    let [l, n] = before[i] || [0, 0];
    const skip = n === 0 && c.commands[0] && c.commands[0].args.length === 1 && /^-ver$/i.test(c.commands[0].args[0]) ? c.commands[0].lines.join("\n").length + 1 : 0;
    raw += (c.rawIn || "").slice(Math.max(l, skip));
    cmds.push(...c.commands.slice(skip ? 1 : n));
  });
  return { r, raw, cmds };
}

module.exports = {
  id: "C05", level: "model_checking",
  rule: "distinct = (call position, text) pairs executed through the public API with the raw bytes reaching the child's stdin compared",
  bounds: (t) => ({ positions: Object.keys(POS).length, tokens: TOK.length, textLength: t === "quick" ? "all texts of up to 2 tokens, plus each ExifTool option word (plain, upper case, with # and =); every BMP code point, 64 to a text, and each below U+2100 alone in tag names" : "all texts of up to 3 tokens, plus option words and code points" }),
  assumptions: ["argument stream semantics follow the vendored exiftool script (FilterArgfileLine, option loop), validated by replaying option words against the real program in C22's conformance part"],
  positions: POS,
  shards(tier) {
    const of = tier === "quick" ? 1 : 2;
    return Object.keys(POS).flatMap((p) => Array.from({ length: of }, (_, part) => ({ pos: p, part, of })));
  },
  async run(shard, ctx) {
    fs.mkdirSync = stub;
    const M = load(ctx.dist);
    const spec = POS[shard.pos];
    let bench = new Bench(M, respond, { maxProcs: 1, taskTimeoutMillis: 5000 });
    try {
      const base = await one(bench, 0, spec, M0);
      if (!spec.refuse && (base.cmds.length !== 1)) { ctx.violate(`${shard.pos}:baseline`, `a plain text gave ${base.cmds.length} commands (${show(base.r.reason)})`); return; }
      const bl = base.cmds[0]?.lines;
      // every occurrence of the marker in a baseline line splits it into fixed parts
      const parts = bl?.map((l) => l.split(M0));
      const texts = function* () {
        yield* words(TOK, ctx.quick ? 2 : 3);
        for (const w of OPTION_WORDS) for (const v of [w, w.toUpperCase(), "x:" + w]) for (const s of ["", "#", "=", "+", "-", " "]) yield v + s;
        for (const t of ["__proto__", "constructor", "toString", "hasOwnProperty", "#[CSTR]a", "# comment", "-", "--", "-all=", "../../x", "~", "$HOME", "`id`", "a".repeat(5000)]) yield t;
        // every code point of the basic plane: 64 to a text, and one to a text where tags are named
        for (let c = 32; c <= 0xffff; c += 64) if (c < 0xd7c0 || c >= 0xe000) yield "x" + String.fromCharCode(...Array.from({ length: Math.min(64, 0x10000 - c) }, (_, i) => c + i)).replaceAll("/", "") + "y";
        if (spec.tag) for (let c = 1; c < 0x2100; c++) yield "x" + String.fromCharCode(c) + "y";
        if (spec.dest) yield* words(["%", "%", "d", "f", "c", "C", "0", "-", ".", ":", "u", "n", "t", "x", "/"].filter((c, i, a) => a.indexOf(c) === i), ctx.quick ? 3 : 4, 3);
      };
      let n = 0, rej = 0, ok = 0;
      for (const t of texts()) {
        if (n++ % shard.of !== shard.part) continue;
        if (spec.arg && /^\s*-(execute\d*|stay_open)\s*$/i.test(t)) continue; // extra arguments are the caller's own ExifTool arguments
        const x = await one(bench, 0, spec, t);
        ctx.eval(shard.pos + "|" + t); ctx.add("transitions", x.cmds.length || 1);
        const bad = (k, m) => ctx.violate(`${shard.pos}:${k}:${JSON.stringify(t)}`, `${shard.pos} with ${JSON.stringify(t.slice(0, 60))}: ${m}`, { pos: shard.pos, t });
        if (x.raw === "") {
          rej++;
          if (x.r.status !== "rejected") bad("silent", `nothing was sent but the call ${x.r.status}`);
          continue;
        }
        ok++;
        if (spec.refuse) { bad("accepted", `should have been refused; sent ${show(x.raw)}`); continue; }
        if (x.cmds.length !== 1 || x.raw !== x.cmds[0].lines.join("\n") + "\n") { bad("split", `${x.cmds.length} commands reached the child: ${show(x.raw)}`); bench.close(); bench = new Bench(M, respond, { maxProcs: 1, taskTimeoutMillis: 5000 }); continue; }
        const lines = x.cmds[0].lines;
        const dropped = spec.arg && t.trim() === "" ? 1 : 0;
        if (lines.length !== bl.length - dropped) { bad("count", `${lines.length} arguments instead of ${bl.length}: ${show(lines)}`); continue; }
        let shift = 0;
        for (let i = 0; i < bl.length; i++) {
          if (dropped && parts[i].length > 1) { shift = 1; continue; }
          const l = lines[i - shift], p = parts[i];
          if (p.length === 1) { if (l !== bl[i]) bad("leak", `argument ${i} changed from ${show(bl[i])} to ${show(l)}`); continue; }
          if (!spec.file && !(l.startsWith(p[0]) && l.endsWith(p.at(-1)) && l.length >= p[0].length + p.at(-1).length)) bad("escape", `argument ${show(l)} is not confined to ${show(bl[i])}`);
          if (/[\r\n\0]/.test(l)) bad("control", `argument ${show(l)} holds a line break or NUL`);
          const f = filterLine(l);
          if (f === undefined && !spec.arg) bad("ignored", `ExifTool would ignore the argument ${show(l)}`);
          if (spec.file) { if (!l.startsWith("/")) bad("relative", `file argument ${show(l)} is not absolute`); const named = spec.dest ? expandDest(l, D + "f", { t: "ThumbnailImage", s: "jpg", g: ["EXIF"] }) : l; if (named !== path.resolve(shard.pos.includes("rel") || ["readRaw.file", "edit.file", "delete.file", "buf.file"].includes(shard.pos) ? t : D + t)) bad("file", `file argument ${show(l)} names ${show(named)}`); }
          if (spec.tag || spec.val) { if (!f?.startsWith("-")) bad("notag", `argument ${show(l)} is not a tag`); else if (isOption(f.slice(1)) || f.startsWith("--")) bad("option", `ExifTool would take ${show(l)} as an option`); }
          if (spec.tag && /[<>=\s]/.test(t)) bad("tagchars", `tag text ${show(t)} was accepted`);
        }
      }
      ctx.outcome(`${shard.pos}: rejected ${rej > 0}, sent ${ok > 0}`);
      ctx.sample({ position: shard.pos, refused: rej, sent: ok, baseline: bl });
    } finally { bench.close(); }
  },
};
