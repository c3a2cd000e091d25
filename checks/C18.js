"use strict";
const fs = require("node:fs");
const path = require("node:path");
const { load } = require("../lib/load.js");
const { Bench, words, seqs, product, show } = require("../lib/harness.js");
const { expandDest } = require("../lib/fmtmodel.js");
const { Real, JPEG } = require("../lib/realtool.js");
const { json } = require("../lib/answers.js");

const F = "/etv-none/f.jpg", G = "/etv-none/out.bin";
const b64 = (b) => "base64:" + Buffer.from(b).toString("base64");
// every filesystem call that could create, change or remove something
const WRITERS = ["writeFileSync", "writeFile", "unlinkSync", "unlink", "rmSync", "rm", "renameSync", "rename", "copyFileSync", "copyFile", "truncateSync", "truncate", "rmdirSync", "rmdir", "openSync", "open", "appendFileSync", "appendFile", "createWriteStream", "symlinkSync", "linkSync"];

module.exports = {
  id: "C18", level: "model_checking",
  rule: "distinct = (call, answer, diagnostics, options) cases and byte strings executed through the public API",
  bounds: (t) => ({ bytes: `all byte strings of up to ${t === "quick" ? 4 : 6} bytes over 6 byte values, all 65536 two-byte strings (thorough), all single bytes, all lengths 0-300, 1 MB`, answers: "all answer shapes x key spellings x diagnostics", reports: `all sequences of up to ${t === "quick" ? 3 : 4} report lines x diagnostics x options`, destinations: `all texts of up to ${t === "quick" ? 4 : 5} tokens of % d f c C 0 - . u t x / :`, real: "destination state x overwrite option x tag presence on the vendored exiftool, in a scratch directory" }),
  assumptions: ["library filesystem calls other than directory creation are replaced by recorders in the stand-in parts", "destination expansion follows exiftool's FilenameSPrintf/NextUnusedFilename, modelled in lib/fmtmodel.js and replayed against the real program"],
  shards(tier) {
    const s = [{ part: "bytes" }, { part: "shape" }, { part: "file" }, { part: "rewrite" }, { part: "real" }];
    for (let i = 0; i < 4; i++) s.push({ part: "dest", i, of: 4 });
    return s;
  },
  async run(shard, ctx) {
    if (shard.part === "real") return real(ctx);
    const made = [], touched = [];
    const realMk = fs.mkdirSync;
    fs.mkdirSync = (p) => { made.push(String(p)); };
    const M = load(ctx.dist);
    for (const w of WRITERS) { const o = fs[w]; fs[w] = (...a) => { touched.push(w + " " + String(a[0])); if (!String(a[0]).startsWith("/etv-none")) return o(...a); }; }
    let cur = {};
    const bench = new Bench(M, () => (typeof cur === "function" ? cur() : cur), { maxProcs: 1, taskRetries: 1 });
    const sentNow = () => bench.sent;
    const run = async (call) => { const n = sentNow(); const r = await bench.one(() => call(bench.et), 60_000); return { r, cmds: bench.log.slice(n) }; };
    const report = (key, m, detail) => ctx.violate(`${shard.part}:${key}`.slice(0, 300), `${key}: ${m}`, detail);
    try {
      if (shard.part === "bytes") {
        const go = async (bytes, key) => {
          const b = Buffer.from(bytes);
          cur = { out: json({ SourceFile: F, ThumbnailImage: b64(b) }) };
          const { r, cmds } = await run((et) => et.extractBinaryTagToBuffer("ThumbnailImage", F));
          ctx.eval("b:" + (key ?? b.toString("hex"))); ctx.add("transitions");
          if (r.status !== "fulfilled" || !Buffer.isBuffer(r.value) || !r.value.equals(b)) report("bytes " + (key ?? b.toString("hex")), `${r.status} ${show(r.value ?? r.reason).slice(0, 100)}`);
          else if (cmds.length !== 1) report("bytes " + (key ?? b.toString("hex")), `sent ${cmds.length} commands`);
        };
        for (const s of seqs([0, 0x0a, 0x41, 0x7f, 0x80, 0xff], ctx.quick ? 4 : 6)) await go(s);
        for (let i = 0; i < 256; i++) { await go([i]); if (!ctx.quick) for (let j = 0; j < 256; j++) await go([i, j]); }
        for (let n = 0; n <= 300; n++) await go(Buffer.from(Array.from({ length: n }, (_, i) => (i * 37 + n) & 255)), "len" + n);
        await go(Buffer.alloc(1 << 20, 0xa5), "1MB");
      } else if (shard.part === "shape") {
        const tags = ["ThumbnailImage", "PreviewImage", "JpgFromRaw"];
        const val = { bin: b64("AB"), empty: "base64:", plain: "(Binary data 12 bytes, use -b option to extract)", num: 5, nul: null, text: "hello", list: [b64("AB")], obj: { a: 1 }, bool: true };
        const spell = { same: (t) => t, lower: (t) => t.toLowerCase(), upper: (t) => t.toUpperCase(), none: () => undefined, group: (t) => "EXIF:" + t };
        const errs = ["", "Warning: [minor] odd\n", "Error: File not found - f\n"];
        for (const t of tags) for (const v of Object.keys(val)) for (const sp of Object.keys(spell)) for (const e of errs) for (const other of ["", "OtherImage", t + "Small", "Small" + t, t.slice(0, -1), t.slice(1), t + "2", t.replace(/a/, "aa"), t.toLowerCase() + " "]) for (const after of other ? [false, true] : [false]) {
          // ... next to another tag's data, before or after
          const o = { SourceFile: F };
          if (other && !after) o[other] = b64("ZZZ");
          const k = spell[sp](t);
          if (k) o[k] = val[v];
          if (other && after) o[other] = b64("ZZZ");
          cur = { out: json(o), err: e };
          const { r, cmds } = await run((et) => et.extractBinaryTagToBuffer(t, F));
          const key = `${t}:${v}:${sp}:${errs.indexOf(e)}:${other}:${after}`;
          ctx.eval(key); ctx.add("transitions", cmds.length); ctx.outcome(v + sp + r.status);
          const has = ["same", "lower", "upper"].includes(sp) && (v === "bin" || v === "empty");
          if (r.status === "fulfilled" && !(has && Buffer.isBuffer(r.value) && r.value.toString() === (v === "bin" ? "AB" : ""))) report(key, "resolved with " + show(r.value));
          if (has && !/Error/.test(e) && r.status !== "fulfilled") report(key, "rejected although the tag was delivered: " + r.reason);
          if (r.status === "rejected" && !(r.reason instanceof Error)) report(key, "rejected with a non-error");
          if (!has && cmds.length !== 1 && !/Error/.test(e)) report(key, `nothing to extract, but the command was sent ${cmds.length} times`);
          if (!k && /Error/.test(e) && !(r.reason && r.reason.message.includes("File not found"))) report(key, "lost the reason: " + r.reason);
        }
        for (const out of ["", "[]", "[{}]", "{}", "null", "[null]", "nope", '[{"SourceFile":"x"', "[[]]", "5"]) for (const e of errs) {
          cur = { out, err: e };
          const { r } = await run((et) => et.extractBinaryTagToBuffer("ThumbnailImage", F));
          ctx.eval("bad:" + out + e); ctx.add("transitions");
          if (r.status !== "rejected") report("bad:" + out, "resolved with " + show(r.value));
        }
      } else if (shard.part === "file" || shard.part === "rewrite") {
        const file = shard.part === "file";
        const LINES = file
          ? ["    1 output files created", "    0 output files created", "    2 output files created", "   11 output files created", "   10 output files created", "    1 output file created", "    1 files weren't updated due to errors", "    1 image files created", "    1 image files read", "Warning: x", ""]
          : ["    1 image files created", "    0 image files created", "    1 image files updated", "    2 image files created", "   11 image files created", "    1 image files unchanged", "    1 files weren't updated due to errors", "    1 output files created", ""];
        const re = file ? /(\d+) output files? created/gi : /(\d+) image files created/gi;
        const ERR = { none: "", warn: "Warning: [minor] odd thing - f\n", nothing: "Error: Nothing to write - f\n", error: "Error: Truncated file - f\n", both: "Warning: a\nError: Disk full - f\n" };
        const calls = file ? {
          extractThumbnail: (et, o) => et.extractThumbnail(F, G, o), extractPreview: (et, o) => et.extractPreview(F, G, o), extractJpgFromRaw: (et, o) => et.extractJpgFromRaw(F, G, o), extractBinaryTag: (et, o) => et.extractBinaryTag("ICC_Profile", F, G, o),
        } : { rewriteAllTags: (et, o) => et.rewriteAllTags(F, G, o) };
        const opts = file ? [undefined, { forceWrite: true }] : [undefined, { allowMakerNoteRepair: true }];
        for (const [name, call] of Object.entries(calls)) for (const s of seqs(LINES, ctx.quick ? (name === "extractThumbnail" || !file ? 3 : 2) : 4)) for (const e of Object.keys(ERR)) for (const o of opts) for (const nl of s.length > 2 ? ["\n"] : ["\n", "\r\n"]) {
          const text = s.map((l) => l + nl).join("");
          cur = { out: text, err: ERR[e] };
          const { r, cmds } = await run((et) => call(et, o));
          const key = `${name}:${show(s)}:${e}:${show(o)}:${nl.length}`;
          ctx.eval(key); ctx.add("transitions", cmds.length); ctx.outcome(e + r.status);
          const counts = [...text.matchAll(re)].map((m) => Number(m[1]));
          const error = e === "error" || e === "both";
          if (r.status === "fulfilled" && (error || !counts.includes(1))) report(key, `resolved although ExifTool reported ${show(counts)} and ${show(ERR[e])}`);
          if (r.status === "fulfilled" && r.value !== undefined) report(key, "resolved with " + show(r.value));
          if (!error && s.length === 1 && counts.length === 1 && counts[0] === 1 && r.status !== "fulfilled") report(key, "rejected although one file was written: " + r.reason);
          if (error && (r.status !== "rejected" || !/Truncated|Disk full/.test(r.reason.message))) report(key, `${r.status} ${r.reason}`);
          if (r.status === "rejected" && !(r.reason instanceof Error)) report(key, "rejected with a non-error");
          if (file && !error && counts.length && counts.every((c) => c !== 1) && cmds.length !== 1) report(key, `definitive answer, but the command was sent ${cmds.length} times`);
          if (r.status === "fulfilled" && cmds.length !== 1) report(key, `succeeded but was sent ${cmds.length} times`);
          if (cmds.length > 2) report(key, `sent ${cmds.length} times with one retry`);
          if (cmds.some((c) => c.args.includes("-W!")) !== (file && !!o)) report(key, "overwriting asked for: " + show(cmds[0].args));
          if (touched.some((t) => t.includes("etv-none"))) { report(key, "the library itself touched " + show(touched)); touched.length = 0; }
        }
      } else {
        const T = ["%", "d", "f", "c", "C", "0", "-", ".", "u", "t", "x", "/", ":", "o", " "];
        let n = 0;
        const D = "/etv-none/";
        cur = { out: "    1 output files created\n    1 image files created\n" };
        const calls = { bin: [(et, d) => et.extractBinaryTag("ThumbnailImage", F, d), "-W"], thumb: [(et, d) => et.extractThumbnail(F, d, { forceWrite: true }), "-W!"], rewrite: [(et, d) => et.rewriteAllTags(F, d), "-out"] };
        // rewrite's report must start with its own line
        const out = { bin: "    1 output files created\n", thumb: "    1 output files created\n", rewrite: "    1 image files created\n" };
        const len = ctx.quick ? 4 : 5;
        const L = [..."abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"];
        const codes = function* () { for (const o of product({ sign: ["", "-", "+"], w: ["", "0", "12"], dot: ["", ".", ":"], w2: ["", "3"], mod: ["", "l", "u", "n"], code: L })) yield `q%${Object.values(o).join("")}z`; };
        for (const w of [...words(T, len, 1), ...codes()]) {
          if (!w.includes("%") && w.length > 2) continue;
          if (n++ % shard.of !== shard.i) continue;
          for (const name of Object.keys(calls)) for (const pre of w.length > 3 || w[0] === "q" ? [D] : [D, D + "%f/", D + "a%d"]) {
            if (name === "thumb" && w.length > 3) continue;
            const dest = pre + w;
            cur = { out: out[name] };
            made.length = 0;
            const { r, cmds } = await run((et) => calls[name][0](et, dest));
            const key = `${name}:${show(dest)}`;
            ctx.eval(key); ctx.add("transitions", cmds.length); ctx.outcome(name + r.status);
            const want = path.resolve(dest);
            if (cmds.length === 0) {
              // only names with a copy-number code cannot be written literally
              if (!/%[^/]*[cC]/.test(dest)) report(key, "a usable destination was refused: " + r.reason);
              if (r.status !== "rejected") report(key, "nothing sent, " + r.status);
              continue;
            }
            const a = cmds[0].args, i = a.indexOf(calls[name][1]);
            if (i < 0) { report(key, "no destination option in " + show(a)); continue; }
            const got = expandDest(a[i + 1], F, { t: "ThumbnailImage", s: "jpg", g: ["EXIF"], o: "f.jpg" });
            if (got !== want) report(key, `ExifTool would write ${show(got)}, asked for ${show(want)} (sent ${show(a[i + 1])})`);
            if (a.at(-1) !== F && a.at(-2) !== F) report(key, "source " + show(a));
            if (name !== "rewrite" && dest === want && made.some((p) => ![want, path.dirname(want)].includes(path.resolve(p)))) report(key, "created directories " + show(made));
          }
        }
      }
      ctx.sample({ ...shard });
    } finally { fs.mkdirSync = realMk; bench.close(); }
  },
};

// the whole path with the vendored exiftool in a scratch directory
async function real(ctx) {
  if (!Real.available()) { ctx.add("realUnavailable"); return; }
  const M = load(ctx.dist);
  const R = new Real();
  const et = new M.ExifTool({ maxProcs: 2, taskRetries: 1, logger: () => ({ trace() {}, debug() {}, info() {}, warn() {}, error() {} }) });
  try {
    const thumb = Buffer.concat([JPEG, Buffer.from([0, 1, 2, 0xff, 0x0a, 0x0d])]);
    fs.writeFileSync(R.path("t.bin"), thumb);
    fs.writeFileSync(R.path("with.jpg"), JPEG); fs.writeFileSync(R.path("without.jpg"), JPEG); fs.writeFileSync(R.path("junk.jpg"), "junk");
    await R.exec([`-ThumbnailImage<=${R.path("t.bin")}`, "-overwrite_original", R.path("with.jpg")]);
    const got = (await R.exec(["-b", "-ThumbnailImage", "-w", "%0f" + R.path("chk.bin"), R.path("with.jpg")]));
    void got;
    const src0 = fs.readFileSync(R.path("with.jpg"));
    let n = 0;
    const names = ["plain.jpg", "a%fb.jpg", "%d.jpg", "100%.jpg", "%%0f.jpg", "sp ace.jpg", "ü€.jpg", "%-.2f%e.bin", "%g1.jpg", "%s.%t"];
    for (const src of ["with", "without", "junk", "missing"]) for (const state of ["absent", "existing", "newdir"]) for (const force of [undefined, false, true]) for (const name of state === "newdir" ? names.slice(0, 2) : names.slice(0, src === "with" ? names.length : 1)) {
      const dir = R.path("d" + n++); fs.mkdirSync(dir);
      const dest = path.join(dir, ...(state === "newdir" ? ["x", "y"] : []), name);
      if (state === "existing") fs.writeFileSync(dest, "precious");
      const r = await et.extractThumbnail(R.path(src + ".jpg"), dest, force === undefined ? undefined : { forceWrite: force }).then(() => ({ ok: true }), (e) => ({ e }));
      const key = `real:${src}:${state}:${force}:${name}`;
      ctx.eval(key); ctx.add("transitions"); ctx.add("traces");
      const want = src === "with" && (state !== "existing" || force === true);
      const now = fs.existsSync(dest) ? fs.readFileSync(dest) : undefined;
      const files = fs.readdirSync(dir, { recursive: true, withFileTypes: true }).filter((f) => f.isFile()).map((f) => f.name);
      if (want !== !!r.ok) ctx.violate(key, `${r.ok ? "resolved" : "rejected: " + r.e}, expected ${want ? "success" : "rejection"}`);
      if (want && !(now && now.equals(thumb))) ctx.violate(key, `destination holds ${now ? now.length + " bytes" : "nothing"}; directory: ${show(files)}`);
      if (!want && state === "existing" && String(now) !== "precious") ctx.violate(key, "an existing file was overwritten");
      if (files.length > 1 || (files.length === 1 && files[0] !== name)) ctx.violate(key, "other files written: " + show(files));
    }
    for (const src of ["with", "without", "junk", "missing"]) for (const state of ["absent", "existing"]) for (const name of names) {
      const dir = R.path("r" + n++); fs.mkdirSync(dir);
      const dest = path.join(dir, name);
      if (state === "existing") fs.writeFileSync(dest, "precious");
      const r = await et.rewriteAllTags(R.path(src + ".jpg"), dest).then(() => ({ ok: true }), (e) => ({ e }));
      const key = `realrw:${src}:${state}:${name}`;
      ctx.eval(key); ctx.add("transitions"); ctx.add("traces");
      const files = fs.readdirSync(dir);
      if (r.ok && !files.includes(name)) ctx.violate(key, "resolved but the output is missing: " + show(files));
      if (state === "existing" && fs.readFileSync(dest, "utf8") !== "precious") ctx.violate(key, "an existing file was overwritten");
      if (state === "existing" && r.ok) ctx.violate(key, "resolved although the destination existed");
      if ((src === "with" || src === "without") && state === "absent" && !r.ok) ctx.violate(key, "rejected: " + r.e);
      if ((src === "junk" || src === "missing") && r.ok) ctx.violate(key, "resolved for an unusable source");
      if (files.length > 1 || (files.length === 1 && files[0] !== name)) ctx.violate(key, "other files written: " + show(files));
    }
    for (const src of ["with", "without", "junk", "missing"]) {
      const r = await et.extractBinaryTagToBuffer("ThumbnailImage", R.path(src + ".jpg")).then((v) => ({ v }), (e) => ({ e }));
      ctx.eval("realbuf:" + src); ctx.add("transitions"); ctx.add("traces");
      if (src === "with" ? !(r.v && r.v.equals(thumb)) : !r.e) ctx.violate("realbuf:" + src, show(r));
    }
    if (!fs.readFileSync(R.path("with.jpg")).equals(src0)) ctx.violate("real:source", "the source file changed");
  } finally { await et.end().catch(() => {}); R.close(); }
}
