"use strict";
// Tag descriptions against a model of ExifTool's tag database: every cache-file state, fs fault,
// crash point, and every order of lookups, clears, load completions and load failures.
const fs = require("node:fs");
const os = require("node:os");
const path = require("node:path");
const { load } = require("../lib/load.js");
const { Bench, show } = require("../lib/harness.js");
const { FakeChild, READY } = require("../lib/env.js");
const { Real } = require("../lib/realtool.js");
const { obs } = require("../lib/obs.js");

const enc = (s) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;").replace(/'/g, "&#39;");
// tag database: name -> [{lang: text}], one element per table the tag is in
const DB = {
  DateTimeOriginal: [{ en: "Date/Time Original", de: "Erstellungsdatum", fr: "Date de l'original" }],
  ISO: [{ en: "ISO", de: "ISO-Wert" }],
  ProfileType: [{ en: "Profile Type", de: "Profiltyp", fr: "Type de profil" }, { en: "Kind of Profile" }],
  Ampersand: [{ en: "A & B <C> \"D\" 'E' &amp; &lt;", de: "\u00c4 & \u00d6", fr: "l'\u00e9t\u00e9" }],
  OnlyEnglish: [{ en: "Only English" }],
  OnlyGerman: [{ de: "Nur Deutsch" }],
  constructor: [{ en: "Constructor Tag", de: "Konstruktor" }],
  Colour: [{ en_gb: "Colour", en: "Color", zh_cn: "\u989c\u8272", zh_tw: "\u984f\u8272" }],
  "0x0001": [{ en: "Hex name", en_ca: "Hex name, eh" }],
};
const xmlOf = (db, mark = "") => `<?xml version='1.0' encoding='UTF-8'?>\n<taginfo>\n\n<table name='T::Main' g0='T' g1='T' g2='Other'>\n <desc lang='en'>Table</desc>\n` + Object.entries(db).flatMap(([n, ts], at) => [at === 4 ? "</table>\n\n<table name='U::Main' g0='U' g1='U' g2='Other'>\n <desc lang='en'>Other table</desc>\n" : "", ... ts.map((t, i) => ` <tag id='${n}${i}' name='${n}' type='?' writable='false'>\n` + Object.entries(t).map(([l, d]) => `  <desc lang='${l}'>${enc(d + mark)}</desc>\n`).join("") + `  <values>\n   <key id='1'>\n    <val lang='en'>Value</val>\n   </key>\n  </values>\n </tag>\n`)]).join("") + "</table>\n\n</taginfo>\n";
const XML = xmlOf(DB);
const NAMES = [...Object.keys(DB), "Nope", "toString", "hasOwnProperty", "__proto__", ""];
const allowed = (lang, name, mark = "") => (Object.hasOwn(DB, name) ? DB[name] : []).map((t) => t[lang]).filter((x) => x !== undefined).map((x) => x + mark);
const VER = "13.59";

// a child that answers -ver at once and leaves -listx to `listx(child)`
function factory(w) {
  return (env) => new FakeChild(env, {
    onCommand(ch, c) {
      queueMicrotask(() => {
        if (c.args.includes("-ver")) return ch.out((c.n > 0 && w.verFail ? "no version here\n" : w.version + "\n") + READY);
        if (c.args.includes("-listx")) return w.listx(ch);
        ch.out(READY);
      });
    },
    onExitCommand(ch) { queueMicrotask(() => ch.exit(0)); },
  });
}
const FAULTY = ["existsSync", "readFileSync", "mkdirSync", "writeFileSync", "openSync", "writeSync", "closeSync", "renameSync", "statSync", "lstatSync", "accessSync", "unlinkSync", "rmSync", "appendFileSync", "copyFileSync", "readdirSync", "fsyncSync"];

class World {
  constructor(M) {
    this.M = M;
    this.dir = fs.mkdtempSync(path.join(os.tmpdir(), "etv-verif-td-"));
    this.cache = path.join(this.dir, "a", "cache");
    this.version = VER; this.xml = XML; this.listx = (ch) => ch.out(this.xml + READY);
    this.bench = new Bench(M, undefined, { maxProcs: 8, taskRetries: 0 }, factory(this));
  }
  td(o) { return new this.M.TagDescriptions(this.bench.et, o); }
  settle() { return this.bench.env.pump(() => false, 20); }
  wipe() { fs.rmSync(path.join(this.dir, "a"), { recursive: true, force: true }); }
  files() { try { return fs.readdirSync(this.cache).map((f) => path.join(this.cache, f)); } catch { return []; } }
  close() { this.bench.close(); fs.rmSync(this.dir, { recursive: true, force: true }); }
}
const opt = (w, lang) => ({ cacheDir: w.cache, ...(lang === "default" ? {} : { language: lang === "undefined" ? undefined : lang }) });
const langOf = (l) => (l === "default" || l === "undefined" ? "en" : l);

// what a complete instance must show; `base` (the same without any disk cache) settles curated texts
function judge(t, lang, all, base, mark = "") {
  const L = langOf(lang);
  if (!(all instanceof Map) && typeof all?.get !== "function") return "getAll gave " + obs(all);
  for (const n of NAMES) {
    const g = t.get(n), ok = allowed(L, n, mark);
    const cur = L === "en" && base?.[n];
    if (cur) { if (obs(g) !== cur || obs(all.get(n)) !== cur) return `${n}: ${obs(g)} / ${obs(all.get(n))}, curated ${cur}`; continue; }
    if (obs(g) !== obs(all.get(n))) return `${n}: get gives ${obs(g)}, getAll ${obs(all.get(n))}`;
    if (ok.length === 0 ? g !== undefined : !(g && Object.keys(g).length >= 1 && ok.includes(g.desc))) return `${n} (${lang}): ${obs(g)}, ExifTool has ${show(ok)}`;
  }
  if (!t.isLoaded || t.size !== all.size) return `isLoaded ${t.isLoaded}, size ${t.size} of ${all.size}`;
  if ([...all.keys()].some((k) => !Object.hasOwn(DB, k)) && L !== "en") return "unknown tags " + [...all.keys()].filter((k) => !Object.hasOwn(DB, k));
}
// curated texts: what is known before anything is loaded
const curatedOf = (w) => { const t = w.td({ disableDiskCache: true }), r = Object.create(null); for (const n of NAMES) { const g = t.get(n); if (typeof g?.desc === "string") r[n] = obs(g); } return r; };

async function lookups(w, lang, cur, mark, o = {}) {
  const t = w.td({ ...opt(w, lang), ...o });
  const L = langOf(lang);
  for (const n of NAMES) { const g = t.get(n); if (g !== undefined && !(L === "en" && cur[n] && obs(g) === cur[n])) return `before loading, get(${n}) gives ${obs(g)}`; }
  if (t.isLoaded || t.size !== 0) return "loaded before loading";
  const r = await w.bench.all([() => t.getAsync("ProfileType"), () => t.getAll(), () => t.preload(), () => t.getAsync("constructor"), () => t.getAsync("toString"), () => t.getAsync("DateTimeOriginal")]);
  for (const x of r) if (x.status !== "fulfilled") return "lookup " + x.status + " " + (x.reason && x.reason.message);
  const why = judge(t, lang, r[1].value, cur, mark);
  if (why) return why;
  if (obs(r[0].value) !== obs(t.get("ProfileType")) || obs(r[3].value) !== obs(t.get("constructor")) || r[4].value !== undefined || obs(r[5].value) !== obs(t.get("DateTimeOriginal"))) return `getAsync gave ${obs(r.map((x) => x.value).filter((x) => !(x instanceof Map)))}`;
  return undefined;
}
const LANGS = ["default", "en", "undefined", "de", "fr", "en_ca", "xx", "zh", "zh_tw"];

module.exports = {
  id: "C19", level: "model_checking",
  rule: "distinct = distinct (cache state, language) lookups, (crash point) recoveries, description texts, and operation histories compared with the tag-database model",
  bounds: (t) => ({ truncation: "every byte of the cache file", crashPoints: "every fs call, and every byte of every write, of a load", histories: t === "quick" ? "all of length 5 over 10 operations" : "all of length 6 over 10 operations", languages: LANGS, faults: FAULTY, texts: "all strings of up to 3 tokens over 13" }),
  assumptions: ["a complete, well-formed cache file for the same version and language is trusted", "the fake exiftool's -listx answer has the shape of the real one (compared with it in part real)"],
  shards(tier) {
    const s = [{ part: "real" }, ...LANGS.map((lang) => ({ part: "classes", lang })), { part: "texts" }];
    for (let i = 0; i < 3; i++) s.push({ part: "trunc", i, of: 3 });
    for (let i = 0; i < 3; i++) s.push({ part: "cutxml", i, of: 3 });
    const h = tier === "quick" ? 6 : 12;
    for (let i = 0; i < h; i++) s.push({ part: "hist", i, of: h });
    return s;
  },
  async run(shard, ctx) {
    const M = load(ctx.dist);
    if (shard.part === "real") return real(M, ctx);
    const w = new World(M);
    try {
      const cur = curatedOf(w);
      if (shard.part === "hist") return await histories(w, cur, shard, ctx);
      const one = async (key, lang, mark, o) => {
        ctx.eval(key); ctx.add("transitions"); ctx.add("traces");
        const why = await lookups(w, lang, cur, mark, o);
        if (why) ctx.violate(key, `${why} [${key}]`, { key });
        else ctx.outcome("ok");
      };
      if (shard.part === "texts") {
        // every description text over the entity vocabulary, in every quoting style
        const TOK = ["a", " ", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#39;", "&#233;", "&#128512;", "lt;", "amp;", "#39;"], DEC = ["a", " ", "&", "<", ">", '"', "'", "'", "\u00e9", "\u{1f600}", "lt;", "amp;", "#39;"];
        const all = [];
        for (let n = 1; n <= 3; n++) for (let i = 0; i < TOK.length ** n; i++) { let x = i, a = "", b = ""; for (let j = 0; j < n; j++) { a += TOK[x % TOK.length]; b += DEC[x % TOK.length]; x = Math.floor(x / TOK.length); } all.push([a, b]); }
        for (const q of ["'", '"']) for (const lang of ["en", "de"]) {
          w.xml = "<taginfo>\n<table name='T'>\n" + all.map(([a], i) => ` <tag id=${q}${i}${q} name=${q}N${i}${q} type=${q}?${q}>\n  <desc lang=${q}${lang === "en" ? "de" : "en"}${q}>other</desc>\n  <desc lang=${q}${lang}${q}>${a}</desc>\n </tag>\n`).join("") + "</table>\n</taginfo>\n";
          const t = w.td({ language: lang, disableDiskCache: true });
          const r = await w.bench.one(() => t.getAll());
          for (const [i, [a, b]] of all.entries()) {
            ctx.eval(`text ${q}${lang}${a}`); ctx.add("transitions");
            const want = b.trim(), got = r.value?.get("N" + i)?.desc;
            if (want === "" ? got !== undefined && got !== "" : got?.trim() !== want || (got !== want && got !== b)) ctx.violate(`text ${lang} ${a}`, `description ${a} became ${show(got)}`, {});
          }
        }
        ctx.sample({ texts: all.length });
        return;
      }
      if (shard.part === "cutxml") {
        // ExifTool's answer ends anywhere: nothing of it is taken, neither now nor later
        for (const lang of ["de", "en"]) for (let k = shard.i; k < XML.length; k += shard.of) {
          w.wipe(); w.xml = XML.slice(0, k);
          const t = w.td(opt(w, lang)), key = `answer cut at ${k} ${lang}`, whole = XML.slice(k).trim() === "";
          const r = await w.bench.all([() => t.getAsync("OnlyGerman"), () => t.getAll()]);
          w.xml = XML;
          if (!whole && r.some((x) => x.status !== "rejected")) { ctx.violate(key, `a lookup on an answer cut at ${k} gave ${obs(r.map((x) => x.value))}`, { key }); continue; }
          await one(key, lang);
          const g = await w.bench.one(() => t.getAsync("OnlyGerman"));
          if (g.status !== "fulfilled" || (allowed(lang, "OnlyGerman")[0] ?? undefined) !== g.value?.desc) ctx.violate(key + " again", `the instance that got the cut answer gives ${obs(g)}`, { key });
        }
        return;
      }
      if (shard.part === "trunc") {
        for (const lang of ["de", "en"]) {
          w.wipe();
          await one(`cold ${lang}`, lang);
          const files = w.files();
          for (const f of files) {
            const T = fs.readFileSync(f);
            for (let k = shard.i; k < T.length; k += shard.of) {
              fs.writeFileSync(f, T.subarray(0, k));
              await one(`truncated ${lang} at ${k}`, lang);
              if (lang === "de" || !ctx.quick) { // the tail never reached the disk
                fs.writeFileSync(f, Buffer.concat([T.subarray(0, k), Buffer.alloc(T.length - k)]));
                await one(`zero tail ${lang} at ${k}`, lang);
              }
            }
          }
          ctx.sample({ lang, files: files.map((f) => path.basename(f)), bytes: files.map((f) => fs.statSync(f).size) });
        }
        return;
      }
      // classes of cache content
      for (const lang of [shard.lang]) {
        w.wipe();
        await one(`cold ${lang}`, lang);
        await one(`warm ${lang}`, lang);
        const files = w.files(), T = files.map((f) => fs.readFileSync(f, "utf8"));
        const put = async (name, text) => { for (const [i, f] of files.entries()) { fs.rmSync(f, { recursive: true, force: true }); const x = typeof text === "function" ? text(T[i]) : text; if (x !== undefined) fs.writeFileSync(f, x); } await one(`${name} ${lang}`, lang); await one(`${name} ${lang}, again`, lang); };
        for (const c of ["", " ", "null", "0", "true", "[]", "{}", '"x"', "[[]]", "{\"version\":\"13.59\"}", "not json", "\u0000", "\ufeff"]) await put(`content ${JSON.stringify(c)}`, c);
        await put("doubled", (t) => t + t); await put("garbage at the end", (t) => t + "x"); await put("garbage at the start", (t) => "x" + t);
        const edit = (fn) => (t) => { let j; try { j = JSON.parse(t); } catch { return "?"; } return JSON.stringify(fn(j) ?? j); };
        const isBag = (v) => v !== null && typeof v === "object" && !Array.isArray(v);
        const BADV = [null, [], "x", 0, {}, true, undefined];
        const keys = (() => { try { return Object.keys(JSON.parse(T[0])); } catch { return []; } })();
        for (const k of keys) for (const v of BADV) await put(`${k} replaced by ${show(v)}`, edit((j) => { j[k] = v; if (/version|lang/i.test(k)) for (const b of Object.values(j).filter(isBag)) for (const n of Object.keys(b)) b[n] = { desc: "STALE" }; }));
        for (const k of keys) for (const n of ["ProfileType", "Ampersand", "DateTimeOriginal"]) for (const v of [null, "x", 5, {}, [], { desc: 5 }, { desc: null }, { see: "x" }]) await put(`${k}.${n} is ${show(v)}`, edit((j) => { if (isBag(j[k]) && Object.hasOwn(j[k], n)) j[k][n] = v; }));
        // a complete cache is trusted, but curated texts never come from it
        for (const how of ["other text", "absent"]) for (const n of Object.keys(cur)) {
          w.wipe(); await one(`warm ${lang}`, lang);
          for (const f of w.files()) fs.writeFileSync(f, edit((j) => { for (const b of Object.values(j).filter(isBag)) if (Object.hasOwn(b, n)) { if (how === "absent") delete b[n]; else b[n] = { desc: "STALE" }; } })(fs.readFileSync(f, "utf8")));
          const t = w.td(opt(w, lang)), key = `curated ${n} ${how} in the cache ${lang}`, r = [await w.bench.one(() => t.getAsync(n)), { status: "fulfilled", value: t.get(n) }];
          await w.bench.one(() => t.preload());
          r.push(await w.bench.one(() => t.getAsync(n)), { status: "fulfilled", value: t.get(n) });
          ctx.eval(key); ctx.add("transitions", 4);
          if (langOf(lang) === "en" && r.some((x) => x.status !== "fulfilled" || obs(x.value) !== cur[n])) ctx.violate(key, `${key}: ${obs(r)}`, { key });
        }
        // directories, links and files in unexpected places
        for (const f of files) { fs.rmSync(f, { recursive: true, force: true }); fs.mkdirSync(f); } await one(`directory ${lang}`, lang);
        for (const f of files) { fs.rmSync(f, { recursive: true, force: true }); fs.symlinkSync(f, f); } await one(`link loop ${lang}`, lang);
        for (const f of files) { fs.rmSync(f, { recursive: true, force: true }); fs.symlinkSync(path.join(w.dir, "nowhere", "x"), f); } await one(`dangling link ${lang}`, lang);
        w.wipe(); fs.mkdirSync(path.dirname(w.cache)); fs.writeFileSync(w.cache, "a file"); await one(`cacheDir is a file ${lang}`, lang);
        w.wipe(); fs.writeFileSync(path.join(w.dir, "a"), "a file"); await one(`parent is a file ${lang}`, lang); fs.rmSync(path.join(w.dir, "a"));
        // other versions and languages in the same directory, also under this one's file name
        for (const other of LANGS) for (const version of [VER, "12.99"]) {
          if (langOf(other) === langOf(lang) && version === VER) continue;
          w.wipe(); w.version = version; w.xml = xmlOf(DB, " OLD");
          await one(`other ${other} ${version} (for ${lang})`, other, " OLD");
          const old = w.files();
          w.version = VER; w.xml = XML;
          await one(`${lang} after ${other} ${version}`, lang);
          if (files.length === 1 && old.length === 1) { for (const f of w.files()) fs.rmSync(f); fs.mkdirSync(w.cache, { recursive: true }); w.version = version; w.xml = xmlOf(DB, " OLD"); await one(`other again ${other} ${version} (for ${lang})`, other, " OLD"); if (old[0] !== files[0]) fs.renameSync(w.files()[0], files[0]); w.version = VER; w.xml = XML; await one(`${lang} in a file of ${other} ${version}`, lang); }
        }
        // no disk cache: nothing is written or read
        w.wipe(); await one(`disabled ${lang}`, lang, "", { disableDiskCache: true }); if (fs.existsSync(path.join(w.dir, "a"))) ctx.violate(`disabled ${lang}`, "the disk cache was used although disabled", {});
        // each fs call fails
        for (const warm of [false, true]) for (const fn of FAULTY) for (const code of ["EACCES", "ENOSPC"]) {
          w.wipe(); if (warm) await one(`warm ${lang}`, lang);
          const orig = fs[fn];
          fs[fn] = function (p, ...a) { if (typeof p === "number" || String(p).startsWith(w.dir)) throw Object.assign(new Error(`${code}: ${fn}`), { code }); return orig.call(fs, p, ...a); };
          try { await one(`${fn} ${code} ${warm ? "warm" : "cold"} ${lang}`, lang); } finally { fs[fn] = orig; }
          await one(`after ${fn} ${code} ${warm ? "warm" : "cold"} ${lang}`, lang);
        }
        // crash at each fs mutation, and within each write, of a cold load
        const MUT = ["mkdirSync", "writeFileSync", "openSync", "writeSync", "closeSync", "renameSync", "unlinkSync", "appendFileSync", "copyFileSync", "linkSync"];
        const crashAt = async (n, keep) => {
          const orig = Object.fromEntries(MUT.map((m) => [m, fs[m]]));
          let count = 0, size = 0, dead = false;
          const boom = () => { dead = true; throw Object.assign(new Error("crashed"), { code: "ECRASH" }); };
          for (const m of MUT) fs[m] = function (p, ...a) {
            if (!(typeof p === "number" || String(p).startsWith(w.dir))) return orig[m].call(fs, p, ...a);
            if (dead) return boom();
            if (count++ === n) { if (/write|append/i.test(m)) { const data = Buffer.from(a[0]); size = data.length; if (keep > 0) orig[m].call(fs, p, data.subarray(0, keep), ...a.slice(1)); else if (keep === 0 && m === "writeFileSync") orig[m].call(fs, p, ""); } return boom(); }
            return orig[m].call(fs, p, ...a);
          };
          try { const t = w.td(opt(w, lang)); await w.bench.one(() => t.preload()); } finally { Object.assign(fs, orig); }
          return { size, hit: dead };
        };
        if (["de", "en"].includes(lang)) for (let n = 0; ; n++) {
          w.wipe();
          const r = await crashAt(n, -1);
          if (!r.hit) break;
          await one(`crash before fs call ${n} ${lang}`, lang);
          for (let k = 0; k <= r.size && r.size > 0; k++) { w.wipe(); await crashAt(n, k); await one(`crash in fs call ${n} after ${k} bytes ${lang}`, lang); }
        }
      }
      ctx.sample({ languages: LANGS, curated: Object.keys(cur) });
    } finally { w.close(); }
  },
};

async function histories(w, cur, shard, ctx) {
  const OPS = ["A.async", "A.all", "B.async", "A.clear", "ok", "fail", "part", "verfail", "cutCache", "delCache"];
  const depth = ctx.quick ? 5 : 6;
  let held = [];
  w.listx = (ch) => held.push(ch);
  const answer = (kind) => { const ch = held.shift(); if (!ch) return false; if (kind === "ok") ch.out(XML + READY); else if (kind === "part") ch.out(XML.slice(0, XML.length >> 1) + READY); else { ch.err("Error: listing failed\n"); ch.out(READY); } return true; };
  const L = "de", want = (v) => v !== undefined && allowed(L, "ProfileType").includes(v.desc);
  const files = () => w.files();
  const runSeq = async (seq) => {
    w.wipe(); held = []; w.verFail = false;
    const mk = () => ({ t: w.td(opt(w, L)), loaded: false, started: false, epoch: 0 });
    const I = { A: mk(), B: mk() }, calls = [];
    let failures = 0;
    const bad = (msg) => { ctx.violate(seq.join(" "), `${msg} after ${seq.join(" ")}`, { seq }); return true; };
    const call = (x, how) => {
      const c = { x, how, at: failures, epoch: x.epoch, state: "pending" };
      x.started = true;
      (how === "all" ? x.t.getAll() : x.t.getAsync("ProfileType")).then((v) => { c.state = "ok"; c.v = v; if (x.epoch === c.epoch) x.loaded = true; }, (e) => { c.state = "err"; c.v = e; c.failed = failures; });
      calls.push(c);
      return c;
    };
    const check = () => {
      for (const c of calls) {
        if (c.state === "ok" && !want(c.how === "all" ? c.v.get("ProfileType") : c.v)) return bad(`a lookup resolved with ${obs(c.v)}`);
        if (c.state === "err" && c.failed === c.at && !c.verFail) return bad(`a lookup rejected without a failure: ${c.v && c.v.message}`);
      }
      for (const x of [I.A, I.B]) {
        const g = x.t.get("ProfileType");
        if (g !== undefined && !want(g)) return bad(`get gives ${obs(g)}`);
        if (x.loaded && g === undefined) return bad("get gives nothing although loaded");
        if (!x.started && (x.t.isLoaded || x.t.size !== 0 || g !== undefined)) return bad("descriptions are present although cleared or never loaded");
        if (x.t.isLoaded !== (g !== undefined)) return bad(`isLoaded is ${x.t.isLoaded}, get gives ${obs(g)}`);
      }
    };
    for (const op of seq) {
      ctx.add("transitions");
      if (op === "A.async") call(I.A, "async").verFail = w.verFail;
      else if (op === "A.all") call(I.A, "all").verFail = w.verFail;
      else if (op === "B.async") call(I.B, "async").verFail = w.verFail;
      else if (op === "A.clear") { I.A.t.clear(); I.A.loaded = false; I.A.started = false; I.A.epoch++; }
      else if (op === "ok") answer("ok");
      else if (op === "fail" || op === "part") { if (held.length) { failures++; answer(op); } }
      else if (op === "verfail") w.verFail = !w.verFail;
      else if (op === "cutCache") { for (const f of files()) { const b = fs.readFileSync(f); fs.writeFileSync(f, b.subarray(0, b.length - 5)); } }
      else if (op === "delCache") w.wipe();
      await w.settle();
      if (check()) return;
    }
    w.verFail = false;
    for (let i = 0; i < 20 && held.length; i++) { answer("ok"); await w.settle(); }
    if (calls.some((c) => c.state === "pending")) return bad("a lookup never settled");
    if (check()) return;
    // whatever happened, lookups work now
    const C = mk();
    const last = [call(I.A, "async"), call(I.B, "all"), call(C, "async"), call(C, "all")];
    for (let i = 0; i < 20; i++) { await w.settle(); if (!held.length) break; answer("ok"); }
    for (const c of last) if (c.state !== "ok") return bad(`a lookup after everything recovered is ${c.state}: ${c.v && c.v.message}`);
    check();
    for (const x of [I.A, I.B, C]) { const r = await w.bench.one(() => x.t.getAll()); const why = judge(x.t, L, r.value, cur); if (why) return bad(why); }
    ctx.outcome(calls.map((c) => c.state).join(","));
  };
  let n = 0;
  const rec = async (seq) => {
    if (seq.length === depth) {
      if (n++ % shard.of !== shard.i) return;
      ctx.eval(seq.join(" ")); ctx.add("traces");
      await runSeq(seq);
      if (n < 4) ctx.sample({ seq });
      return;
    }
    for (const o of OPS) {
      // steps that cannot do anything are left out
      if (o === "ok" || o === "fail" || o === "part") { if (!seq.some((x) => /async|all/.test(x))) continue; }
      if ((o === "cutCache" || o === "delCache") && !seq.includes("ok")) continue;
      if (o === "A.clear" && !seq.some((x) => x.startsWith("A."))) continue;
      await rec([...seq, o]);
    }
  };
  await rec([]);
}

// the real tag database: every description of every tag, independently parsed
async function real(M, ctx) {
  if (!Real.available()) { ctx.add("realUnavailable"); return; }
  const R = new Real();
  const et = new M.ExifTool({ maxProcs: 1, taskRetries: 0, taskTimeoutMillis: 120_000, logger: () => ({ trace() {}, debug() {}, info() {}, warn() {}, error() {} }) });
  try {
    const { out } = await R.exec(["-listx"]);
    const dec = (s) => s.replace(/&(#\d+|[a-z]+);/g, (_, e) => (e[0] === "#" ? String.fromCodePoint(Number(e.slice(1))) : { lt: "<", gt: ">", amp: "&", quot: '"', apos: "'" }[e]));
    const db = new Map();
    let tag;
    for (const line of out.split("\n")) {
      let m = /^\s*<tag .*? name='([^']*)'/.exec(line);
      if (m) { tag = m[1]; continue; }
      if (/^\s*<\/tag>/.test(line)) tag = undefined;
      m = /^ {2}<desc lang='(\w+)'>(.*)<\/desc>$/.exec(line);
      if (m && tag !== undefined) { const k = m[1] + "\0" + tag; if (!db.has(k)) db.set(k, new Set()); db.get(k).add(dec(m[2]).trim()); }
    }
    for (const lang of ctx.quick ? ["en", "fr", "zh_cn"] : ["en", "fr", "de", "it", "ja", "zh_cn", "en_gb"]) {
      const t = new M.TagDescriptions(et, { language: lang, disableDiskCache: true });
      const cur = new M.TagDescriptions(et, { language: lang, disableDiskCache: true });
      const all = await t.getAll();
      let names = 0;
      for (const [k, set] of db) {
        const [l, name] = k.split("\0");
        if (l !== lang) continue;
        names++;
        ctx.eval(`real ${lang} ${name}`); ctx.add("transitions"); ctx.add("traces");
        const c = cur.get(name), g = t.get(name);
        if (c !== undefined ? obs(c) !== obs(g) : !(g && set.has(g.desc)) || obs(all.get(name)) !== obs(g)) ctx.violate(`real ${lang} ${name}`, `${name} in ${lang}: ${obs(g)}, ExifTool has ${show([...set])}`, {});
      }
      for (const name of all.keys()) if (!db.has(lang + "\0" + name) && cur.get(name) === undefined) ctx.violate(`real ${lang} ${name}`, `${name} has no ${lang} description, got ${obs(all.get(name))}`, {});
      ctx.sample({ lang, names });
    }
  } finally { await et.end().catch(() => {}); R.close(); }
}
