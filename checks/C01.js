"use strict";
const { load } = require("../lib/load.js");
const { explore, quietLogger } = require("../lib/explore.js");
const { FakeChild, READY, isVersion } = require("../lib/env.js");
const { Bench, words, show } = require("../lib/harness.js");

const json = (o) => JSON.stringify([o], null, 2).replace(/^ {2}/gm, "") + "\n";
const title = (f) => `T:${f}:ü€😀`;
const readAnswer = (f) => json({ SourceFile: f, Title: title(f), Rating: f.length });

// ---- schedules: concurrent calls, children, chunk deliveries and timers -------------
const A = "/s/a.jpg", B = "/s/b.jpg", C = "/s/c.jpg", D = "/s/d.jpg";
const ansOf = {
  read: (f) => readAnswer(f), readRaw: (f) => readAnswer(f),
  write: () => "    1 image files updated\n", version: () => "13.59\n",
  buf: (f) => json({ SourceFile: f, ThumbnailImage: "base64:" + Buffer.from("B" + f).toString("base64") }),
};
const KINDS = {
  read: { call: (f) => (et) => et.read(f), ok: (f, v) => v.SourceFile === f && v.Title === title(f) && v.Rating === f.length && v.errors.length === 0 },
  readRaw: { call: (f) => (et) => et.readRaw(f), ok: (f, v) => v.SourceFile === f && v.Title === title(f) && v.Rating === f.length },
  write: { call: (f) => (et) => et.write(f, { Title: "x" }), ok: (f, v) => v.updated === 1 && v.created === 0 && v.unchanged === 0 && v.warnings === undefined },
  buf: { call: (f) => (et) => et.extractBinaryTagToBuffer("ThumbnailImage", f), ok: (f, v) => Buffer.isBuffer(v) && v.toString() === "B" + f },
};
const SCHED = {
  "1proc-3reads": { maxProcs: 1, ops: [["read", A], ["read", B], ["readRaw", C]] },
  "2proc-3reads": { maxProcs: 2, ops: [["read", A], ["read", B], ["read", C]] },
  "2proc-mixed": { maxProcs: 2, ops: [["read", A], ["write", B], ["buf", C]] },
  "3proc-4mixed": { maxProcs: 3, ops: [["read", A], ["readRaw", B], ["buf", C], ["read", D]], thorough: true },
  "2proc-recycle": { maxProcs: 2, maxTasks: 1, ops: [["read", A], ["read", B], ["read", C]] },
  "2proc-errors": { maxProcs: 2, ops: [["read", A], ["write", B], ["read", C]], bad: [B] },
  "same-calls": { maxProcs: 2, ops: [["read", A], ["read", A], ["readRaw", A]] },
  "same-file": { maxProcs: 2, ops: [["read", A], ["buf", A], ["write", A]] },
};
function mkScenario(name) {
  const d = SCHED[name];
  const f = () => {
    const files = {};
    for (const [k, file] of d.ops) {
      const full = ansOf[k](file);
      const cut = Buffer.from(full).indexOf(Buffer.from("€"));
      files[file] = d.bad?.includes(file)
        ? { answers: [{ err: `Error: bad ${file} - ${file}\n`, out: "    0 image files updated\n" }] }
        : { answers: [{ out: full, cuts: [cut > 0 ? cut + 1 : 3] }] };
    }
    const sc = {
      files, timerRaces: true, faults: {}, horizonMs: 60_000,
      ops: d.ops.map(([k, file], i) => ({ name: k + i, kind: k, file, client: "c" + i, call: KINDS[k].call(file) })),
      make: (M, run) => new M.ExifTool({ checkPerl: false, logger: quietLogger, maxProcs: d.maxProcs, minDelayBetweenSpawnMillis: 0, maxTasksPerProcess: d.maxTasks ?? 100, healthCheckIntervalMillis: 0, healthCheckCommand: "-ver\n-health\n-execute\n", onIdleIntervalMillis: 1000, taskTimeoutMillis: 5000, spawnTimeoutMillis: 5000, taskRetries: 0, processFactory: run.makeFactory() }),
    };
    if (name === "same-calls") {
      // equal commands, a different answer to each one (as for a file that changes meanwhile)
      sc.files = { [A]: { answers: [{ out: "" }] } };
      const orig = sc.make;
      sc.make = (M, run) => {
        let n = 0;
        const oa = run.answer.bind(run);
        run.answer = (c, cmd) => { if (cmd.startup) return oa(c, cmd); const t = json({ SourceFile: A, Title: "answer " + n++ }); return [{ out: t.slice(0, 4), tag: "o" }, { out: t.slice(4) + READY, tag: "o", last: true }]; };
        return orig(M, run);
      };
    }
    if (name === "same-file") {
      // the three calls address one file: answer by command type
      sc.files = { [A]: { answers: [{ out: "" }] } };
      const orig = sc.make;
      sc.make = (M, run) => {
        const byType = (cmd) => cmd.args.includes("-b") ? ansOf.buf(A) : cmd.args.some((a) => a.startsWith("-Title=")) ? ansOf.write(A) : ansOf.read(A);
        const oa = run.answer.bind(run);
        run.answer = (c, cmd) => cmd.startup ? oa(c, cmd) : [{ out: byType(cmd).slice(0, 4), tag: "o" }, { out: byType(cmd).slice(4) + READY, tag: "o", last: true }];
        return orig(M, run);
      };
    }
    return sc;
  };
  f.label = name;
  return f;
}
function checkSchedule(name) {
  const d = SCHED[name];
  return (x, bad) => {
    if (name === "same-calls") {
      const got = x.ops.map((op) => (op.state === "ok" ? op.value.Title : `${op.state} ${op.error}`));
      if ([...got].sort().join() !== "answer 0,answer 1,answer 2") bad("shared", `three equal commands answered "answer 0" to "answer 2" resolved with ${show(got)}`);
      return;
    }
    for (const op of x.ops) {
      if (op.state !== "ok" && !d.bad?.includes(op.file)) bad("fail:" + op.name, `${op.name} on ${op.file} did not resolve (${op.state}: ${op.error})`);
      else if (op.state === "ok" && d.bad?.includes(op.file) && op.kind === "write") bad("swap:" + op.name, `${op.name} resolved although its own command failed`);
      else if (op.state === "ok" && !KINDS[op.kind].ok(op.file, op.value)) bad("wrong:" + op.name, `${op.name} on ${op.file} resolved with a wrong answer: ${show(op.value)}`);
      else if (op.state === "err" && !String(op.error.message).includes(op.file)) bad("wrongerr:" + op.name, `${op.name} rejected with another error: ${op.error}`);
      if (op.settles > 1) bad("twice", op.name);
    }
  };
}

// ---- chunking: every cut (and pair of cuts) of a response ----------------------------
// a child that sends the pieces of each answer 5 virtual ms apart
function chunkChild(env, plan) {
  return new FakeChild(env, {
    onCommand(ch, c) {
      if (c.n === 0 && isVersion(c)) return void queueMicrotask(() => ch.out("13.59\n" + READY));
      let t = 0;
      for (const p of plan(c)) { t += 5; setTimeout(() => { if (p.err) ch.err(p.err); else ch.out(p.out); }, t); }
    },
    onExitCommand(ch) { queueMicrotask(() => ch.exit(0)); },
  });
}
const RAWERR = "Warning: [minor] Bad é€😀 text\nWarning: 2nd ü\n";
const APIS = {
  read: { out: (f) => readAnswer(f), call: (et, f) => et.read(f), ok: (v, f) => v.SourceFile === f && v.Title === title(f) && v.errors.length === 0 },
  readRaw: { out: (f) => readAnswer(f), call: (et, f) => et.readRaw(f), ok: (v, f) => v.SourceFile === f && v.Title === title(f) },
  readErr: { err: RAWERR, out: (f) => json({ SourceFile: f }), call: (et, f) => et.read(f), ok: (v, f) => v.SourceFile === f && show(v.warnings) === show(RAWERR.trim().split("\n")) },
  write: { err: RAWERR, out: () => "    1 image files created\n    2 image files unchanged\n", call: (et, f) => et.write(f, { Title: "x" }), ok: (v) => v.created === 1 && v.unchanged === 2 && v.updated === 0 && show(v.warnings) === show(RAWERR.trim().split("\n")) },
  version: { out: () => "13.59\n", call: (et) => et.version(), ok: (v) => v === "13.59" },
  buf: { out: ansOf.buf, call: (et, f) => et.extractBinaryTagToBuffer("ThumbnailImage", f), ok: (v, f) => v.toString() === "B" + f },
  bin: { out: () => "    1 output files created\n", call: (et, f) => et.extractBinaryTag("ThumbnailImage", f, "/tmp/etv-verif-none"), ok: (v) => v === undefined },
  rewrite: { out: () => "    1 image files created\n", call: (et, f) => et.rewriteAllTags(f, "/tmp/etv-verif-none"), ok: (v) => v === undefined },
};
function pieces(buf, cuts, mk) {
  const out = []; let p = 0;
  for (const x of [...cuts, buf.length]) { if (x > p) out.push(mk(buf.subarray(p, x))); p = x; }
  return out;
}
async function runCuts(shard, ctx, M) {
  const spec = APIS[shard.api];
  const plans = new Map();
  const bench = new Bench(M, null, { taskTimeoutMillis: 20_000 }, (env) => chunkChild(env, (c) => {
    const f = c.args.find((a) => plans.has(a));
    return plans.get(f ?? [...plans.keys()][0]);
  }));
  try {
    let n = 0;
    const single = shard.api === "version"; // no file to route by: run one at a time
    const batch = [];
    const flush = async () => {
      const rs = await bench.all(batch.map((b) => () => spec.call(bench.et, b.f)));
      rs.forEach((r, i) => {
        const b = batch[i];
        ctx.eval(JSON.stringify([shard.api, b.cuts, b.eCuts]));
        ctx.add("transitions", b.cuts.length + (b.eCuts?.length || 0) + 1);
        ctx.outcome(r.status);
        const good = r.status === "fulfilled" && spec.ok(r.value, b.f);
        // batch-cluster drops a stderr chunk that is only white space (a known finding)
        const E = spec.err && Buffer.from(spec.err), ec = [0, ...(b.eCuts || []), E?.length ?? 0];
        const blankChunk = E && ec.some((x, j) => j > 0 && x > ec[j - 1] && E.subarray(ec[j - 1], x).toString().trim() === "");
        if (!good && blankChunk && (r.status === "fulfilled" || /^Warning:\S/.test(r.reason?.message))) { ctx.add("blankChunkCases"); ctx.known(`stderr-blank-chunk:${shard.api}`, `${shard.api}: stderr cut at [${b.eCuts}] gave ${show(r.value)}`); }
        else if (!good) ctx.violate(`cuts:${shard.api}:${b.cuts}:${b.eCuts || ""}`, `${shard.api}: response cut at bytes [${b.cuts}] (stderr [${b.eCuts || ""}]) gave ${r.status} ${show(r.value ?? r.reason)}`, { api: shard.api, cuts: b.cuts });
        plans.delete(b.f);
      });
      batch.length = 0;
    };
    const add = async (cuts, eCuts) => {
      const f = `/c/${shard.api}${String(n++ % 10000).padStart(4, "0")}.jpg`;
      const buf = Buffer.from(spec.out(f) + READY);
      const e = spec.err ? pieces(Buffer.from(spec.err), eCuts || [], (p) => ({ err: p })) : [];
      plans.set(f, [...e, ...pieces(buf, cuts, (p) => ({ out: p }))]);
      batch.push({ f, cuts, eCuts });
      if (single || batch.length >= 200) await flush();
    };
    const L = Buffer.from(spec.out(`/c/${shard.api}0000.jpg`) + READY).length;
    await add([], []);
    for (let a = 1; a < L; a++) {
      await add([a], []);
      for (let b = a + 1; b < L; b++) if ((!ctx.quick || b - a <= 12 || b >= L - 10) && (a + b) % shard.of === shard.part) await add([a, b], []);
    }
    if (spec.err) {
      const E = Buffer.from(spec.err).length;
      for (let a = 1; a < E; a++) { await add([], [a]); for (let b = a + 1; b < E; b++) await add([L - 5], [a, b]); }
    }
    await flush();
    ctx.sample({ api: shard.api, responseBytes: L });
  } finally { bench.close(); }
}

// ---- text: completion-marker look-alikes and multi-byte text anywhere ----------------
const TOK = ["{ready}", "\n", "é", "😀", "\\", '"', "a", "{ready", "}", "\r"];
async function runText(shard, ctx, M) {
  const plans = new Map();
  const bench = new Bench(M, null, { taskTimeoutMillis: 20_000 }, (env) => chunkChild(env, (c) => plans.get(c.args.find((a) => plans.has(a)))));
  try {
    let batch = [], n = 0;
    const flush = async () => {
      const rs = await bench.all(batch.map((b) => () => b.call(bench.et)));
      rs.forEach((r, i) => {
        const b = batch[i];
        ctx.eval(b.key); ctx.add("transitions", 2); ctx.outcome(r.status);
        if (!(r.status === "fulfilled" && b.ok(r.value))) ctx.violate("text:" + b.key, `${b.key}: expected the exact answer, got ${r.status} ${show(r.value ?? r.reason)}`);
        plans.delete(b.f);
      });
      batch = [];
    };
    const max = ctx.quick ? 4 : 5;
    for (const w of words(TOK, max)) {
      if (n++ % shard.of !== shard.part) continue;
      for (const where of ["value", "key", "struct", "file", "warn", "wfile", "wend"]) {
        if (w.length > 0 && where !== "value" && where !== "struct" && /[\r\n]/.test(w)) continue;
        if (where === "key" && (w === "" || w === "SourceFile")) continue;
        const f = where === "file" || where === "wfile" ? `/t/${n}${where}${w}x.jpg` : where === "wend" ? `/t/${n}wend${w}` : `/t/${n}${where}.jpg`;
        const o = { SourceFile: f, Title: "t" };
        if (where === "value") o.Title = w;
        if (where === "key") o[w] = 5;
        if (where === "struct") o.Title = { a: [w, { b: w }] };
        const warn = `Warning: odd ${w} thing - ${f}`;
        const full = Buffer.from(json(o) + READY);
        const cut = [Math.max(1, full.indexOf(Buffer.from("{ready}")) + 7)].filter((x) => x < full.length);
        if (where === "wfile" || where === "wend") {
          plans.set(f, [{ err: Buffer.from(`Warning: odd thing - ${f}\n`) }, { out: Buffer.from("    1 image files updated\n" + READY) }]);
          batch.push({ f, key: where + ":" + JSON.stringify(w), call: (et) => et.write(f, { Title: "a" }), ok: (v) => v.updated === 1 && show(v.warnings) === show([`Warning: odd thing - ${f}`]) });
        } else {
          plans.set(f, [...(where === "warn" ? [{ err: Buffer.from(warn + "\n") }] : []), ...pieces(full, cut, (p) => ({ out: p }))]);
          batch.push({ f, key: where + ":" + JSON.stringify(w), call: (et) => et.readRaw(f), ok: (v) => {
            const { errors, warnings, ...rest } = v;
            return show(rest) === show(o) && show(warnings) === show(where === "warn" ? [warn] : []) && errors.length === 0;
          } });
        }
        if (batch.length >= 300) await flush();
      }
    }
    await flush();
    ctx.sample({ text: shard.part, cases: n });
  } finally { bench.close(); }
}

// ---- JSON-like text inside metadata: no part of the answer may be rewritten ----------
const JTOK = ['"', "ExifToolVersion", ":", " ", "12.50", "SourceFile", "\\", "{", "[{", "}]", ",", "Error"];
async function runJson(shard, ctx, M) {
  const plans = new Map();
  const bench = new Bench(M, (c) => ({ out: plans.get(c.args.find((a) => plans.has(a))) }), { taskTimeoutMillis: 20_000 });
  try {
    let batch = [], n = 0;
    const flush = async () => {
      const rs = await bench.all(batch.map((b) => () => b.call(bench.et)));
      rs.forEach((r, i) => {
        const b = batch[i];
        ctx.eval(b.key); ctx.add("transitions", 1); ctx.outcome(r.status);
        const bad = r.status !== "fulfilled" ? "rejected: " + r.reason : Object.keys(b.o).find((k) => show(k === "ExifToolVersion" ? Number(r.value[k]) : r.value[k]) !== show(b.o[k]));
        if (bad) ctx.violate("json:" + b.key, `${b.key}: ${bad} ${show(r.value && r.value[bad])}, answered ${show(b.o)}`);
        plans.delete(b.f);
      });
      batch = [];
    };
    for (const w of words(JTOK, ctx.quick ? 4 : 5)) {
      if (n++ % shard.of !== shard.part) continue;
      for (const api of ["read", "readRaw"]) for (const order of [0, 1]) {
        const f = `/j/${n}${api}${order}.jpg`;
        const o = order ? { SourceFile: f, ExifToolVersion: 13.59, Title: w, Nest: { a: [w] } } : { SourceFile: f, Title: w, Nest: { a: [w] }, ExifToolVersion: 13.59 };
        // ExifTool separates with ": ", JSON.stringify() with ":"
        plans.set(f, order ? json(o) : JSON.stringify([o]) + "\n");
        batch.push({ f, o, key: api + order + ":" + JSON.stringify(w), call: (et) => et[api](f) });
      }
      if (batch.length >= 300) await flush();
    }
    await flush();
    ctx.sample({ json: shard.part, cases: n });
  } finally { bench.close(); }
}

module.exports = {
  id: "C01", level: "model_checking",
  rule: "distinct = distinct event histories (schedules), cut vectors and texts actually executed on the built library through its public API",
  bounds: (t) => ({ scheduleDeviations: t === "quick" ? 3 : 4, cuts: t === "quick" ? "all single cuts; all pairs <=12 apart or ending in the last 10 bytes" : "all single cuts and all pairs", textTokens: t === "quick" ? 4 : 5 }),
  assumptions: ["each child delivers the stderr of a command before the stdout completion marker (ExifTool flushes stderr first)", "child processes are stand-ins speaking the stay_open protocol on Buffer streams; kernel pipes deliver bytes in order"],
  shards(tier) {
    const s = [];
    const K = tier === "quick" ? 2 : 8;
    for (const n of Object.keys(SCHED)) if (tier !== "quick" || !SCHED[n].thorough) for (let p = 0; p < K; p++) s.push({ kind: "sched", name: n, part: p, of: K });
    for (const a of Object.keys(APIS)) { const of = a.startsWith("read") || a === "buf" ? 2 : 1; for (let p = 0; p < of; p++) s.push({ kind: "cuts", api: a, part: p, of }); }
    for (let p = 0; p < 4; p++) s.push({ kind: "text", part: p, of: 4 }, { kind: "json", part: p, of: 4 });
    return s;
  },
  async run(shard, ctx) {
    const M = load(ctx.dist);
    if (shard.kind === "sched") await explore({ M, scenario: mkScenario(shard.name), bound: ctx.quick ? 3 : 4, ctx, check: checkSchedule(shard.name), part: [shard.part, shard.of] });
    else if (shard.kind === "cuts") await runCuts(shard, ctx, M);
    else if (shard.kind === "json") await runJson(shard, ctx, M);
    else await runText(shard, ctx, M);
  },
};
