"use strict";
// Which ExifTool is launched, and through which interpreter, in every state of the
// installation: the vendored package, Electron's directories, PATH and Perl.
const cp = require("node:child_process");
const fs = require("node:fs");
const os = require("node:os");
const path = require("node:path");
const { load, fresh } = require("../lib/load.js");
const { readAnswer } = require("../lib/answers.js");
const { Env, autoChild, quietLogger, real } = require("../lib/env.js");
const { show, product, seqs } = require("../lib/harness.js");

const put = (f, mode = 0o755) => { fs.mkdirSync(path.dirname(f), { recursive: true }); fs.writeFileSync(f, "#!/bin/sh\nexit 0\n"); fs.chmodSync(f, mode); };
const gone = (f) => fs.rmSync(f, { recursive: true, force: true });

// What the vendored package exports, by where the application is installed.
const VENDOR = {
  absent: { kind: "absent" },
  broken: { kind: "throws" },
  plain: { kind: "path", dir: ["app", "vendor"] },
  spaces: { kind: "path", dir: ["my app", "vendor"] },
  asar: { kind: "path", dir: ["app.asar", "vendor"] },
  asarDeep: { kind: "path", dir: ["resources", "app.asar", "node_modules", "vendor"] },
  asarTwice: { kind: "path", dir: ["app.asar", "app.asar", "vendor"] },
  almostAsar: { kind: "path", dir: ["my.app.asar", "vendor"] },
  almostAsar2: { kind: "path", dir: ["app.asar2", "vendor"] },
  unpacked: { kind: "path", dir: ["app.asar.unpacked", "vendor"] },
};
// A copy of the built library whose vendored package is the given one.
function tree(S, dist, v) {
  const root = path.join(S, "tree"), nm = path.join(root, "node_modules"), repo = fs.realpathSync(path.join(dist, "..", "node_modules"));
  fs.cpSync(dist, path.join(root, "dist"), { recursive: true });
  fs.copyFileSync(path.join(dist, "..", "package.json"), path.join(root, "package.json"));
  fs.mkdirSync(nm);
  for (const n of fs.readdirSync(repo)) if (!n.startsWith(".") && !n.startsWith("exiftool-vendored")) fs.symlinkSync(path.join(repo, n), path.join(nm, n));
  const exe = v.dir && path.join(S, ...v.dir, "bin", "exiftool");
  if (v.kind !== "absent") {
    const d = path.join(nm, "exiftool-vendored.pl");
    fs.mkdirSync(d);
    fs.writeFileSync(path.join(d, "package.json"), JSON.stringify({ name: "exiftool-vendored.pl", version: "13.59.0", main: "index.js" }));
    fs.writeFileSync(path.join(d, "index.js"), v.kind === "throws" ? "throw new Error('broken installation');\n" : `module.exports = ${JSON.stringify(exe)};\n`);
  }
  return { dist: path.join(root, "dist"), exe, un: exe && path.join(S, ...v.dir.map((x) => (x === "app.asar" ? "app.asar.unpacked" : x)), "bin", "exiftool") };
}
// PATH entries: what is called `name` in each directory
const ENTRY = ["none", "exec", "noexec", "dir", "dangling", "link"];
function paths(S, name) {
  const out = [{ PATH: undefined, want: undefined, how: "unset" }, { PATH: "", want: undefined, how: "empty" }, { PATH: path.join(S, "nowhere"), want: undefined, how: "missing directory" }];
  for (const n of [1, 2, 3]) for (const s of seqs(ENTRY, n, n)) {
    if (n === 3 && !(s.includes("exec") || s.includes("link"))) continue;
    out.push({ list: s, how: s.join(":") });
  }
  return out.map((p) => {
    if (!p.list) return p;
    const dirs = p.list.map((k, i) => {
      const d = path.join(S, "path", `${i}-${k}`), f = path.join(d, name);
      if (!fs.existsSync(d)) {
        fs.mkdirSync(d, { recursive: true });
        if (k === "exec") put(f); else if (k === "noexec") put(f, 0o644); else if (k === "dir") fs.mkdirSync(f);
        else if (k === "dangling") fs.symlinkSync(path.join(S, "nothing"), f); else if (k === "link") { put(path.join(S, "elsewhere", name)); fs.symlinkSync(path.join(S, "elsewhere", name), f); }
      }
      return d;
    });
    const hit = p.list.findIndex((k) => k === "exec" || k === "link");
    return { ...p, PATH: dirs.join(":"), want: hit < 0 ? undefined : path.join(dirs[hit], name) };
  });
}
const setPath = (p) => { if (p === undefined) delete process.env.PATH; else process.env.PATH = p; };
async function settled(p) { try { return { v: await p }; } catch (e) { return { e }; } }

async function locate(shard, ctx, S) {
  const v = VENDOR[shard.vendor], t = tree(S, ctx.dist, v), M = load(t.dist);
  const RES = path.join(S, "electron res"), forge = path.join(RES, "exiftool-vendored.pl", "bin", "exiftool");
  const all = paths(S, "exiftool"), cwd = process.cwd(), PATH0 = process.env.PATH;
  fs.mkdirSync(path.join(S, "cwd")); process.chdir(path.join(S, "cwd"));
  try {
    for (const packed of v.dir ? [true, false] : [false]) for (const un of v.dir && t.un !== t.exe ? [true, false] : [false]) for (const res of ["unset", "empty", "with"]) for (const p of all) for (const log of [true, false]) {
      if (log && p.list?.length > 2) continue;
      for (const f of [t.exe, t.un, forge].filter(Boolean)) gone(f);
      if (packed) put(t.exe);
      if (un) put(t.un);
      if (res === "unset") delete process.resourcesPath; else { process.resourcesPath = RES; fs.mkdirSync(RES, { recursive: true }); if (res === "with") put(forge); }
      setPath(p.PATH);
      const r = await settled(log ? M.exiftoolPath(quietLogger()) : M.exiftoolPath());
      const want = un ? t.un : packed ? t.exe : res === "with" ? forge : p.want;
      const key = `locate:${shard.vendor}:${packed}:${un}:${res}:${p.how}:${log}`;
      ctx.eval(key); ctx.add("transitions"); ctx.add("traces"); ctx.outcome(r.e ? "rejected" : "found");
      const bad = want === undefined ? (r.e === undefined ? `resolved to ${show(r.v)} although there is no ExifTool` : !(r.e instanceof Error) || !/exiftool/i.test(r.e.message) ? `rejected with ${r.e}` : undefined) : r.e !== undefined ? `rejected with ${r.e}, expected ${want}` : r.v !== want ? `resolved to ${show(r.v)}, expected ${want}` : undefined;
      if (bad) ctx.violate(key, `exiftoolPath(): ${bad.replaceAll(S, "<scratch>")}\nvendored package: ${shard.vendor} (file ${packed ? "there" : "missing"}, unpacked copy ${un ? "there" : "missing"}); Electron resources: ${res}; PATH: ${p.how}`, { packed, un, res, path: p.how });
    }
    ctx.sample({ vendored: shard.vendor, pathStates: all.length });
  } finally { process.chdir(cwd); setPath(PATH0); delete process.resourcesPath; }
}

// The file system with some files missing, or not executable, whichever call asks.
function hide(files, dull = new Set()) {
  const undo = [], missing = (f) => typeof f === "string" && files.has(f);
  const err = (f, n) => Object.assign(new Error(`ENOENT: no such file or directory, ${n} '${f}'`), { code: "ENOENT", errno: -2, syscall: n, path: f });
  const wrap = (o, n, g) => { const was = o[n]; o[n] = g(was); undo.push(() => { o[n] = was; }); };
  for (const n of ["access", "stat", "lstat", "realpath", "open", "readFile"]) {
    wrap(fs.promises, n, (was) => function (f, ...a) { return missing(f) ? Promise.reject(err(f, n)) : was.call(this, f, ...a); });
    wrap(fs, n, (was) => function (f, ...a) { if (missing(f)) return void process.nextTick(a.at(-1), err(f, n)); return was.call(this, f, ...a); });
    wrap(fs, n + "Sync", (was) => function (f, ...a) { if (!missing(f)) return was.call(this, f, ...a); if (a[0] && a[0].throwIfNoEntry === false) return; throw err(f, n); });
  }
  const X = (m) => (m & fs.constants.X_OK) !== 0, denied = (f) => Object.assign(err(f, "access"), { code: "EACCES", errno: -13 });
  const strip = (st) => { if (st) st.mode = typeof st.mode === "bigint" ? st.mode & ~0o111n : st.mode & ~0o111; return st; };
  wrap(fs.promises, "access", (was) => function (f, m) { return dull.has(f) && X(m) ? Promise.reject(denied(f)) : was.apply(this, arguments); });
  wrap(fs, "accessSync", (was) => function (f, m) { if (dull.has(f) && X(m)) throw denied(f); return was.apply(this, arguments); });
  wrap(fs, "access", (was) => function (f, m, cb) { return dull.has(f) && typeof m === "number" && X(m) ? void process.nextTick(cb, denied(f)) : was.apply(this, arguments); });
  wrap(fs.promises, "stat", (was) => async function (f) { const st = await was.apply(this, arguments); return dull.has(f) ? strip(st) : st; });
  wrap(fs, "statSync", (was) => function (f) { const st = was.apply(this, arguments); return dull.has(f) ? strip(st) : st; });
  wrap(fs, "existsSync", (was) => function (f) { return !missing(f) && was.call(this, f); });
  return () => undo.reverse().forEach((u) => u());
}
// One call on an instance with the library's own launcher, spawn recorded.
async function launchOne(M, o, calls, waitMs = 60_000) {
  const realSpawn = cp.spawn;
  let env;
  cp.spawn = (file, args, opts) => {
    calls.push({ file, args: [...args] });
    return autoChild(env, (c) => ({ out: c.args.includes("-json") ? readAnswer(c.args.at(-2)) : c.args.includes("-ver") ? "13.59\n" : "" }));
  };
  env = new Env().install();
  try {
    const et = new M.ExifTool({ logger: quietLogger, taskRetries: 0, maxProcs: 1, minDelayBetweenSpawnMillis: 0, maxReasonableProcessFailuresPerMinute: 0, ...o });
    let got;
    {
      et.read("/s/a.jpg").then((v) => { got = { v }; }, (e) => { got = { e: e ?? new Error("undefined") }; });
      const t0 = real.now.call(Date);
      for (let k = 0; !got && real.now.call(Date) - t0 < waitMs; k++) {
        // (until something was launched, virtual time must not run ahead of real I/O)
        if (calls.length || k < 100) await env.pump(() => got || env.nextTimer() === undefined, calls.length ? 50 : 10);
        if (!got) await new Promise((q) => real.setTimeout.call(globalThis, q, 1));
      }
    }
    return got ?? { e: new Error("never settled") };
  } finally { cp.spawn = realSpawn; env.dispose(); process.removeAllListeners("beforeExit"); process.removeAllListeners("exit"); }
}
async function perl(shard, ctx, S) {
  const PERL = "/usr/bin/perl", X = path.join(S, "opt", "exiftool");
  put(X);
  const there = fs.existsSync(PERL), all = paths(S, "perl").filter((p) => ctx.quick ? !p.list || p.list.length < 3 : true), PATH0 = process.env.PATH, cwd = process.cwd();
  fs.mkdirSync(path.join(S, "cwd")); process.chdir(path.join(S, "cwd"));
  try {
    let i = 0;
    for (const state of there ? ["missing", "there", "dull"] : ["missing"]) for (const p of all) for (const checkPerl of [true, false]) for (const shebang of [undefined, true, false]) {
      if (i++ % shard.of !== shard.part) continue;
      const missing = state === "missing", found = state === "there" ? PERL : p.want, use = shebang ?? missing, hopeless = found === undefined && use && !checkPerl;
      const calls = [], unhide = state === "there" ? () => {} : missing ? hide(new Set([PERL])) : hide(new Set(), new Set([PERL]));
      let r;
      try {
        setPath(p.PATH);
        const M = fresh(ctx.dist);
        // (a pool that can launch nothing keeps trying: known finding of C02, not judged here)
        r = await launchOne(M, { checkPerl, exiftoolPath: X, ...(shebang === undefined ? {} : { ignoreShebang: shebang }), spawnTimeoutMillis: 3000, taskTimeoutMillis: 5000 }, calls, hopeless ? 400 : undefined);
      } finally { unhide(); setPath(PATH0); }
      const key = `perl:${state}:${p.how}:${checkPerl}:${shebang}`;
      ctx.eval(key); ctx.add("transitions"); ctx.add("traces"); ctx.outcome(r.e ? "perl-rejected" : "perl-launched");
      let bad;
      if (found === undefined && (checkPerl || use)) {
        if (!r.e) bad = "the call resolved although there is no Perl";
        else if (calls.length) bad = `${show(calls[0])} was launched although there is no Perl`;
        else if (checkPerl && !/perl/i.test(String(r.e))) bad = `rejected with ${r.e}`;
      } else if (r.e) bad = `rejected with ${r.e}`;
      else {
        const want = use ? [found, X] : [X], got = [calls[0].file, ...calls[0].args];
        if (calls.length !== 1) bad = `${calls.length} processes launched`;
        else if (show(got.slice(0, want.length)) !== show(want)) bad = `launched ${show(got)}, expected ${show(want)} and the arguments`;
        else if (got.length - want.length !== M0(ctx).DefaultExiftoolArgs.length) bad = `launched ${show(got)}`;
      }
      if (bad) ctx.violate(key, `${bad.replaceAll(S, "<scratch>")}\n${PERL} ${state === "dull" ? "not executable" : state}; PATH: ${p.how}; checkPerl ${checkPerl}; ignoreShebang ${shebang}`, { state, path: p.how, checkPerl, shebang });
    }
    ctx.sample({ perlStates: i });
  } finally { process.chdir(cwd); }
}
const M0 = (ctx) => load(ctx.dist);

// exiftoolPath given by the caller: text, promise or function, every history of the
// function's outcomes over successive and overlapping questions
async function given(shard, ctx, S) {
  const M = load(ctx.dist), P = "/opt/given/exiftool", def = await M.exiftoolPath();
  const FORMS = {
    string: [P, P], padded: [" /opt/x y/exiftool ", " /opt/x y/exiftool "], promise: () => [Promise.resolve(P), P], blank: ["", def], spaces: ["  ", def], undefined: [undefined, def], fn: () => [() => P, P], fnPadded: () => [() => " /opt/a b ", " /opt/a b "], asyncfn: () => [async () => P, P], thenable: [{ then: (f) => f(P) }, P], promiseOfFn: () => [Promise.resolve(() => P), P],
  };
  for (const [n, f] of Object.entries(FORMS)) {
    const [o, want] = typeof f === "function" ? f() : f;
    const env = new Env().install();
    let r;
    try { const et = new M.ExifTool({ logger: quietLogger, exiftoolPath: o }); const p = et.exiftoolPath(); env.uninstall(); r = await settled(p); } finally { env.dispose(); process.removeAllListeners("beforeExit"); process.removeAllListeners("exit"); }
    const key = "given:" + n;
    ctx.eval(key); ctx.add("transitions"); ctx.add("traces"); ctx.outcome("given");
    if (r.e || r.v !== want) ctx.violate(key, `exiftoolPath option ${n}: ${r.e ? "rejected with " + r.e : "resolved to " + show(r.v)}, expected ${want}`, { n });
  }
  const OC = ["ok", "throw", "reject"];
  for (const seq of seqs(OC, 4, 4)) for (const overlap of [1, 2, 3]) {
    let asked = 0;
    const got = [], errs = seq.map((o, i) => new Error("question " + i));
    const fn = () => { const i = asked++; const o = seq[Math.min(i, 3)]; if (o === "throw") throw errs[i]; return o === "ok" ? P + i : Promise.reject(errs[i]); };
    const env = new Env().install();
    const per = [];
    try {
      const et = new M.ExifTool({ logger: quietLogger, exiftoolPath: fn });
      for (let round = 0; round < 4; round++) { const before = asked; got.push(await Promise.all(Array.from({ length: overlap }, () => settled(et.exiftoolPath())))); per.push(asked - before); }
    } finally { env.dispose(); process.removeAllListeners("beforeExit"); process.removeAllListeners("exit"); }
    const key = `given:${seq}:${overlap}`, first = seq.indexOf("ok");
    ctx.eval(key); ctx.add("transitions", asked); ctx.add("traces"); ctx.outcome("history");
    let bad;
    const okAt = got.findIndex((g) => g.some((x) => x.v !== undefined));
    if (first >= 0 && okAt < 0 && asked > first) bad = "the located program was never returned";
    if (overlap === 1) {
      if (first >= 0 && okAt !== first) bad = `found on question ${okAt + 1}, expected ${first + 1}`;
      if (asked !== (first < 0 ? 4 : first + 1)) bad = `the function was asked ${asked} times, expected ${first < 0 ? 4 : first + 1}`;
    } else if (per.some((x) => x > overlap)) bad = `the function was asked ${per} times`;
    if (okAt >= 0) for (const g of got.slice(okAt + 1)) for (const x of g) if (x.e || x.v !== got[okAt].find((y) => y.v !== undefined).v) bad = `located ${got[okAt].find((y) => y.v !== undefined).v}, later ${x.e ?? x.v}`;
    for (const g of got) for (const x of g) if (x.e && !errs.includes(x.e)) bad = `rejected with ${x.e}`;
    if (bad) ctx.violate(key, `exiftoolPath function with outcomes ${seq}, ${overlap} questions at a time: ${bad}`, { seq, overlap });
  }
  ctx.sample({ given: Object.keys(FORMS) });
}
module.exports = {
  id: "C23", level: "model_checking",
  rule: "distinct = distinct installation states (vendored package, unpacked copy, Electron resources, PATH, Perl) and histories of the caller's locator executed on the built library",
  bounds: (t) => ({ vendoredPackage: Object.keys(VENDOR), electronResources: 3, pathStates: `every sequence of up to 3 directories over ${ENTRY.join(", ")}`, perl: "present, missing or not executable x PATH states (2 directories; 3 in the thorough tier) x checkPerl x ignoreShebang", locator: "all outcome sequences of length 4, 1-3 questions at a time" }),
  assumptions: ["POSIX platform", "child_process.spawn is replaced by a recorder; a missing /usr/bin/perl is simulated in the fs module"],
  shards() {
    const s = Object.keys(VENDOR).map((vendor) => ({ kind: "locate", vendor }));
    for (let part = 0; part < 4; part++) s.push({ kind: "perl", part, of: 4 });
    s.push({ kind: "given" });
    return s;
  },
  async run(shard, ctx) {
    const S = fs.mkdtempSync(path.join(os.tmpdir(), "etv-verif-loc-"));
    try { await { locate, perl, given }[shard.kind](shard, ctx, S); }
    finally { fs.rmSync(S, { recursive: true, force: true }); }
  },
};
