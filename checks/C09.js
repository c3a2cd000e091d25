"use strict";
const fs = require("node:fs");
const { load } = require("../lib/load.js");
const { Bench, seqs, show } = require("../lib/harness.js");
const { Real, JPEG } = require("../lib/realtool.js");
const { json } = require("../lib/answers.js");

const F = "/etv-none/f.jpg";
// diagnostic lines: [text, class] (w = warning, e = error, n = neither)
const L = [
  [`Warning: [minor] Entries in IFD0 were out of sequence. Fixed. - ${F}`, "w"],
  ["warning: lower case", "w"],
  [`Error: Nothing to write - ${F}`, "w"],
  ["Nothing to do.", "w"],
  [`Warning: Error reading MakerNotes - ${F}`, "w"],
  [`Error: File not found - ${F}`, "e"],
  ["error: lower case trouble", "e"],
  [`File format error - ${F}`, "e"],
  ["ERROR: UPPER", "e"],
  ["    plain note", "n"],
  ["", "n"],
  ["  Warning: indented  ", "w"],
  ["\tError: indented\t", "e"],
  ["Error: File not found - /etv-none/Warning/warning.jpg", "e"],
  ["Error: Bad warnings in forewarning - /etv-none/nothing.jpg", "e"],
  ["Warning: [Minor] Error: nothing special", "w"],
  ["[minor] Warning: odd", "w"],
  ["Warning: odd", "w"],
  ["Error: File not found - /etv-none/a\u2028b\u0085c\u2029d.jpg", "e"],
];
const isW = (x) => x[1] === "w", isE = (x) => x[1] === "e";
const uniq = (a) => [...new Set(a)];
const lines = (s, c) => uniq(s.filter(c).map((x) => x[0].trim()));
const msg = (t) => t.trim().replace(/^error: /i, "");
// the error message of a rejection must be that of an error line
const hasMsg = (r, s) => r.status === "rejected" && r.reason instanceof Error && s.filter(isE).some((x) => r.reason.message.includes(msg(x[0])));

const CALLS = {
  read: { out: json({ SourceFile: F, Title: "x" }), call: (et) => et.read(F), judge: (r, s) => (r.status !== "fulfilled" ? "rejected: " + r.reason : show(r.value.errors) !== show(lines(s, isE)) ? "errors " + show(r.value.errors) : show(r.value.warnings) !== show(lines(s, isW)) ? "warnings " + show(r.value.warnings) : r.value.Title !== "x" ? "tags lost" : undefined) },
  readRaw: { out: json({ SourceFile: F, Title: "x" }), call: (et) => et.readRaw(F), judge: (r, s) => CALLS.read.judge(r, s) },
  readEmpty: { out: "", call: (et) => et.read(F), judge: (r, s) => (r.status !== "rejected" ? "resolved with no answer" : s.some(isE) && !hasMsg(r, s) ? "rejected with " + r.reason : undefined) },
  readRawEmpty: { out: "", call: (et) => et.readRaw(F), judge: (r, s) => CALLS.readEmpty.judge(r, s) },
  write: { out: "    1 image files updated\n", call: (et) => et.write(F, { Title: "x" }), judge: (r, s) => judgeWrite(r, s, { created: 0, updated: 1, unchanged: 0 }) },
  edit: { out: "    1 image files unchanged\n", call: (et) => et.editTags(F, [{ tag: "XMP-dc:Subject", operation: "add", value: "a" }]), judge: (r, s) => judgeWrite(r, s, { created: 0, updated: 0, unchanged: 1 }) },
  del: { out: "    1 image files created\n", call: (et) => et.deleteAllTags(F), judge: (r, s) => judgeWrite(r, s, { created: 1, updated: 0, unchanged: 0 }) },
  writeSilent: { out: "", call: (et) => et.write(F, { Title: "x" }), judge: (r, s) => judgeWrite(r, s, { created: 0, updated: 0, unchanged: 0 }) },
  thumb: { out: "    1 output files created\n", call: (et) => et.extractThumbnail(F, "/etv-none/o.jpg"), judge: (r, s) => judgeFile(r, s) },
  bin: { out: "    1 output files created\n", call: (et) => et.extractBinaryTag("ICC_Profile", F, "/etv-none/o"), judge: (r, s) => judgeFile(r, s) },
  buf: { out: json({ SourceFile: F, ThumbnailImage: "base64:QUJD" }), call: (et) => et.extractBinaryTagToBuffer("ThumbnailImage", F), judge: (r, s) => (s.some(isE) ? undefined : r.status !== "fulfilled" || r.value.toString() !== "ABC" ? "not delivered: " + r.reason : undefined) },
  rewrite: { out: "    1 image files created\n", call: (et) => et.rewriteAllTags(F, "/etv-none/o.jpg"), judge: (r, s) => judgeFile(r, s) },
  version: { out: "13.59\n", call: (et) => et.version(), judge: (r, s) => (s.some(isE) ? undefined : r.value !== "13.59" ? "no version " + r.reason : undefined) },
};
function judgeFile(r, s) {
  if (s.some(isE)) return hasMsg(r, s) ? undefined : `should reject with an error line, ${r.status} ${r.reason}`;
  return r.status === "fulfilled" ? undefined : "rejected by a warning: " + r.reason;
}
function judgeWrite(r, s, want) {
  if (s.some(isE)) return hasMsg(r, s) ? undefined : `should reject with an error line, ${r.status} ${r.reason}`;
  if (r.status !== "fulfilled") return "rejected by a warning: " + r.reason;
  const { warnings, ...counts } = r.value;
  for (const k of ["created", "updated", "unchanged"]) if (counts[k] !== want[k]) return `${k} = ${counts[k]}, expected ${want[k]}`;
  const w = lines(s, isW);
  if (show([...(warnings ?? [])].sort()) !== show([...w].sort())) return "warnings " + show(warnings);
}
// report lines of a write
const NOUN = ["image files", "files", "file", "image file"];
const COUNTS = [0, 1, 2, 10, 999, 12345, 100000, 1234567];
const VERB = { created: ["created"], updated: ["updated"], unchanged: ["unchanged", "weren't updated"] };
const REPORT = [];
for (const [k, vs] of Object.entries(VERB)) for (const v of vs) for (const n of NOUN) for (const c of COUNTS) REPORT.push({ t: `${String(c).padStart(5)} ${n} ${v}`, k, c });
const OTHER = ["    1 directories scanned", "    1 files weren't updated due to errors", "created", "updated 3", "    1 image files read", "x1 image files updated y", "Nothing happened", "    3 files failed condition", "'/etv-none/f.jpg' --> 'x'"].map((t) => ({ t }));
const SMALL = [REPORT.find((x) => x.k === "created" && x.c === 1), REPORT.find((x) => x.k === "created" && x.c === 12345), REPORT.find((x) => x.k === "updated" && x.c === 1), REPORT.find((x) => x.k === "updated" && x.c === 2), REPORT.find((x) => x.k === "unchanged" && x.c === 1), REPORT.find((x) => x.k === "unchanged" && x.t.includes("weren't") && x.c === 10), ...OTHER.slice(0, 5), { t: "", blank: true }, { t: "    2 IMAGE FILES UPDATED", k: "updated", c: 2 }];

module.exports = {
  id: "C09", level: "model_checking",
  rule: "distinct = (call, diagnostic line sequence, line ending) and (report line sequence) cases whose outcome was compared with the reference classification",
  bounds: (t) => ({ diagnostics: `all sequences of up to ${t === "quick" ? 3 : 4} of ${L.length} line kinds, LF and CRLF, for ${Object.keys(CALLS).length} call forms`, reports: `all single report lines (${REPORT.length} count/noun/verb forms), all pairs, all sequences of up to ${t === "quick" ? 4 : 5} of ${SMALL.length} line kinds`, answerFields: "Error/Warning tags in the answer combined with every single diagnostic and pairs" }),
  assumptions: ["lines that carry neither the word error nor the word warning are not diagnostics", "the real exiftool's wording is replayed on scratch files in the conformance part"],
  shards(tier) {
    const s = Object.keys(CALLS).map((c) => ({ part: "diag", c }));
    for (let i = 0; i < 4; i++) s.push({ part: "report", i, of: 4 });
    s.push({ part: "fields" }, { part: "real" });
    return s;
  },
  async run(shard, ctx) {
    fs.mkdirSync = shard.part === "real" ? fs.mkdirSync : () => undefined;
    const M = load(ctx.dist);
    let cur = {};
    const bench = new Bench(M, () => cur, { maxProcs: 1 });
    try {
      if (shard.part === "diag") {
        const C = CALLS[shard.c];
        for (const s of seqs(L, ctx.quick ? 3 : 4)) for (const nl of ["\n", "\r\n"]) {
          cur = { out: nl === "\n" ? C.out : C.out.replace(/\n/g, nl), err: s.map((x) => x[0] + nl).join("") };
          const r = await bench.one(() => C.call(bench.et), 20_000);
          const key = `${shard.c}:${JSON.stringify(s.map((x) => L.indexOf(x)))}${nl === "\n" ? "" : "crlf"}`;
          ctx.eval(key); ctx.add("transitions"); ctx.outcome(shard.c + r.status);
          const m = C.judge(r, s);
          if (m) ctx.violate(key, `${shard.c} with diagnostics ${show(s.map((x) => x[0]))}: ${m}`, { call: shard.c, s });
        }
      } else if (shard.part === "report") {
        let n = 0;
        const go = async (s, nl = "\n") => {
          if (n++ % shard.of !== shard.i) return;
          cur = { out: s.map((x) => x.t + nl).join("") };
          const r = await bench.one(() => bench.et.write(F, { Title: "x" }), 20_000);
          const key = "report:" + JSON.stringify(s.map((x) => x.t)) + (nl === "\n" ? "" : "crlf");
          ctx.eval(key); ctx.add("transitions");
          const want = { created: 0, updated: 0, unchanged: 0 };
          for (const x of s) if (x.k) want[x.k] += x.c;
          let m;
          if (r.status !== "fulfilled") m = "rejected: " + r.reason;
          else {
            for (const k of Object.keys(want)) if (r.value[k] !== want[k]) m = `${k} = ${r.value[k]}, expected ${want[k]}`;
            const odd = uniq(s.filter((x) => !x.k && !x.blank).map((x) => x.t.trim()));
            const w = r.value.warnings ?? [];
            if (w.length !== odd.length || odd.some((o) => !w.some((y) => y.includes(o) || y.includes(JSON.stringify(o))))) m = m || `warnings ${show(w)} for unrecognised lines ${show(odd)}`;
          }
          if (m) ctx.violate(key.slice(0, 300), `write report ${show(s.map((x) => x.t))}: ${m}`, { s });
        };
        for (const a of [...REPORT, ...OTHER]) { await go([a]); await go([a], "\r\n"); for (const b of [...REPORT, ...OTHER]) if (!ctx.quick || (a.c !== 999 && b.c !== 999 && a.c !== 2 && b.c !== 2)) await go([a, b]); }
        for (const s of seqs(SMALL, ctx.quick ? 4 : 5, 3)) await go(s);
      } else if (shard.part === "fields") {
        const V = [undefined, "", "odd thing", "Warning: [minor] dup", "Error: bad file"];
        for (const api of ["read", "readRaw"]) for (const e of V) for (const w of V) for (const s of seqs(L, 2)) {
          const o = { SourceFile: F, Title: "x" };
          if (e !== undefined) o.Error = e; if (w !== undefined) o.Warning = w;
          cur = { out: json(o), err: s.map((x) => x[0] + "\n").join("") };
          const r = await bench.one(() => bench.et[api](F), 20_000);
          const key = `fields:${api}:${show([e, w])}:${s.map((x) => L.indexOf(x))}`;
          ctx.eval(key); ctx.add("transitions");
          const we = uniq([...(e ? [e] : []), ...lines(s, isE)]), ww = uniq([...(w ? [w] : []), ...lines(s, isW)]);
          const same = (a, b) => show([...(a ?? [])].sort()) === show([...b].sort());
          if (r.status !== "fulfilled") ctx.violate(key, `${api} rejected: ${r.reason}`);
          else if (!same(r.value.errors, we)) ctx.violate(key, `errors ${show(r.value.errors)}, expected ${show(we)}`);
          else if (!same(r.value.warnings, ww)) ctx.violate(key, `warnings ${show(r.value.warnings)}, expected ${show(ww)}`);
        }
      } else await real(M, ctx, bench);
      ctx.sample({ ...shard });
    } finally { bench.close(); }
  },
};

// conformance: the vendored exiftool's own reports, replayed through the library
async function real(M, ctx, bench) {
  if (!Real.available()) { ctx.add("realUnavailable"); return; }
  bench.env.uninstall();
  const R = new Real();
  try {
    const f = R.path("a.jpg"), missing = R.path("missing.jpg"), junk = R.path("junk.jpg");
    fs.writeFileSync(f, JPEG); fs.writeFileSync(junk, "not a jpeg at all");
    const dir = R.path("dir"); fs.mkdirSync(dir); for (let i = 0; i < 3; i++) fs.writeFileSync(dir + `/${i}.jpg`, JPEG);
    const cases = [];
    const cap = async (name, args, call, expect) => cases.push({ name, call, expect, ...(await R.exec(args)) });
    await cap("updated", ["-Title=x", "-overwrite_original", f], (et) => et.write(F, { Title: "x" }), (r) => r.value?.updated === 1 && r.value.created === 0);
    await cap("unchanged", ["-Artist=", "-overwrite_original", f], (et) => et.write(F, { Artist: null }), (r) => r.value?.unchanged === 1 && r.value.updated === 0);
    await cap("created", ["-Title=y", "-out", R.path("new.jpg"), f], (et) => et.write(F, { Title: "y" }), (r) => r.value?.created === 1);
    await cap("dir", ["-Title=z", "-overwrite_original", dir], (et) => et.write(F, { Title: "z" }), (r) => r.value?.updated === 3 && r.value.created === 0);
    await cap("missing", ["-Title=x", missing], (et) => et.write(F, { Title: "x" }), (r) => r.status === "rejected" && /not found/.test(r.reason.message));
    await cap("notag", ["-NoSuchTag=x", f], (et) => et.write(F, { NoSuchTag: "x" }), (r) => r.status === "fulfilled" && r.value.warnings?.some((w) => /NoSuchTag/.test(w)) && r.value.updated === 0);
    await cap("junk", ["-Title=x", junk], (et) => et.write(F, { Title: "x" }), (r) => r.status === "rejected");
    await cap("readMissing", ["-json", missing], (et) => et.read(F), (r) => r.status === "rejected" && /not found/.test(r.reason.message));
    await cap("rewrite", ["-all=", "-tagsfromfile", "@", "-all:all", "-unsafe", "-icc_profile", "-out", R.path("fixed.jpg"), f], (et) => et.rewriteAllTags(F, "/etv-none/x"), (r) => r.status === "fulfilled");
    await cap("rewriteExists", ["-all=", "-tagsfromfile", "@", "-all:all", "-unsafe", "-icc_profile", "-out", R.path("fixed.jpg"), f], (et) => et.rewriteAllTags(F, "/etv-none/x"), (r) => r.status === "rejected" && /exists/.test(r.reason.message));
    bench.env.install();
    const mk = fs.mkdirSync; fs.mkdirSync = () => undefined;
    for (const c of cases) {
      bench.respond = () => ({ out: c.out, err: c.err });
      const r = await bench.one(() => c.call(bench.et), 20_000);
      ctx.eval("real:" + c.name); ctx.add("transitions"); ctx.add("traces");
      if (!c.expect(r)) ctx.violate("real:" + c.name, `exiftool answered ${show([c.out, c.err])}, call gave ${r.status} ${show(r.value ?? r.reason)}`);
    }
    fs.mkdirSync = mk;
    bench.env.uninstall();
  } finally { R.close(); }
}
