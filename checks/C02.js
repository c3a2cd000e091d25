"use strict";
const { load } = require("../lib/load.js");
const { explore } = require("../lib/explore.js");
const { KINDS } = require("../lib/answers.js");
const { pool, FAULTS } = require("../lib/pool.js");
const { show, product } = require("../lib/harness.js");
const cp = require("node:child_process");
const { Env, autoChild, quietLogger } = require("../lib/env.js");
const A = "/s/a.jpg", B = "/s/b.jpg", C = "/s/c.jpg";

const SC = {};
// every single-call kind under every pair of faults, no retry and one retry
for (const k of Object.keys(KINDS)) for (const r of [0, 1]) SC[`solo-${k}-r${r}`] = { ops: [[k, A]], retries: r, probe: k === "read" ? true : ["read", k], faults: Object.fromEntries(FAULTS.map((f) => [f, 2])), solo: true };
// three calls on one or two children
for (const p of [1, 2]) for (const r of [0, 1]) {
  SC[`trio-p${p}-r${r}`] = { maxProcs: p, retries: r, ops: [["read", A], ["write", B], ["buf", C]], probe: ["write", "read"], faults: Object.fromEntries(FAULTS.map((f) => [f, 2])), cut: true };
  SC[`slowspawn-p${p}-r${r}`] = { maxProcs: p, retries: r, ops: [["read", A], ["edit", B]], controlSpawn: true, probe: true, faults: { crash: 2, stall: 1 } };
  SC[`recycle-p${p}-r${r}`] = { maxProcs: p, retries: r, maxTasks: 1, ops: [["read", A], ["write", B], ["read", C]], probe: true, faults: { crash: 2, stall: 1, garbage: 1 } };
}
// calls that ExifTool answers with an error, then one of every other kind
for (const k of Object.keys(KINDS)) if (k !== "version") for (const p of [1, 2])
  SC[`error-${k}-p${p}`] = { maxProcs: p, retries: 1, ops: [[k, A, { answers: [{ out: "", err: "Error: File format error - " + A + "\n" }] }], ["write", B]], failing: A, probe: Object.keys(KINDS), faults: { crash: 1 }, solo: true, poison: true };
// spawn failures and broken starts before a good child
SC["badspawn1"] = { ops: [["read", A], ["write", B]], children: [{ failSpawn: true }, {}], probe: true, faults: { crash: 1 } };
SC["badspawn3"] = { ops: [["read", A], ["write", B]], children: [{ failSpawn: true }, { failSpawn: true }, { failSpawn: true }, {}], probe: true, faults: { crash: 1 } };
SC["badstart2"] = { ops: [["read", A], ["write", B]], children: [{ badStart: true }, { badStart: true }, {}], probe: true, faults: { crash: 1 } };
SC["neverspawn"] = { ops: [["read", A], ["write", B]], children: [{ failSpawn: true }], dead: true, horizonMs: 60_000 };
SC["neverstart"] = { ops: [["read", A], ["write", B]], children: [{ badStart: true }], dead: true, horizonMs: 60_000 };
// a file that crashes (or hangs) every child that touches it, next to healthy calls
for (const k of Object.keys(KINDS)) if (k !== "version") for (const r of [0, 1, 2]) for (const [how, ans] of [["crash", { crash: true }], ["partial", { out: "[{", crash: true }], ["stall", { stall: true }]]) {
  if (how !== "crash" && r !== 1) continue;
  SC[`poison-${how}-${k}-r${r}`] = { maxProcs: 1, retries: r, ops: [[k, A, { answers: [ans] }], ["read", B]], probe: k === "read" ? true : ["read", k], faults: { crash: 1 }, poison: true, solo: true };
}
SC["poison-once"] = { maxProcs: 2, retries: 1, ops: [["read", A, { answers: [{ crash: true }, { out: KINDS.read.out(A) }] }], ["buf", B, { answers: [{ stall: true }, { out: KINDS.buf.out(B) }] }], ["write", C]], probe: true, faults: { crash: 1, stall: 1 } };
// shutdown or child recycling at any moment
for (const e of ["graceful", "force", "dispose", "asyncDispose", "close", "closeForce"]) for (const p of [1, 2])
  SC[`end-${e}-p${p}`] = { maxProcs: p, retries: 1, ops: [["read", A], ["write", B], ["version", ""]], ends: [e], faults: { crash: 1, stall: 1, deaf: 1 }, ending: e };

function checker(d) {
  return (x, bad) => {
    const closing = d.ending === "close" || d.ending === "closeForce";
    for (const op of x.ops) {
      if (op.settles !== 1) { bad("unsettled:" + op.name, `${op.name} settled ${op.settles} times (${x.deadlock ? "deadlock" : x.timedOut ? "horizon reached" : ""})`); continue; }
      if (!op.kind) { if (op.state === "err") bad("enderr:" + op.name, `${op.name} rejected: ${op.error}`); continue; }
      const hits = x.hits?.get(op.file) || 0;
      const own = x.sent.filter((s) => s.file === op.file).some((s) => s.child.faulted);
      if (op.state === "ok" && !own && !KINDS[op.kind].ok(op.file, op.value)) bad("wrong:" + op.name, `${op.name} resolved with ${show(op.value)}`);
      if (op.state === "err" && !(op.error instanceof Error)) bad("notError:" + op.name, `${op.name} rejected with a non-Error ${show(op.error)}`);
      if (op.state === "err" && !d.dead && !d.ending) {
        if (op.file === d.failing) { if (!hits && !/File format error/.test(op.error.message)) bad("error:" + op.name, `${op.name} rejected with ${op.error}`); }
        else if (!hits) bad("collateral:" + op.name, `${op.name} was not running on a faulty child but rejected: ${op.error}`);
        else if (KINDS[op.kind].retriable && !x.noise?.has(op.file) && hits <= (d.retries ?? 0)) bad("noretry:" + op.name, `${op.name} hit ${hits} fault(s) with ${d.retries} retries rejected: ${op.error}`);
      }
      if (op.state === "ok" && op.file === d.failing && !own && !/^read/.test(op.kind)) bad("ghost:" + op.name, "resolved although ExifTool reported an error");
      if (op.state === "ok" && d.dead) bad("ghost:" + op.name, "resolved without any child");
    }
  };
}

// The library's own launcher: finding the program and spawning it fail for any subset
// of the first attempts, before or after a child was lost; then everything works.
async function launcher(shard, ctx) {
  const M = load(ctx.dist), realSpawn = cp.spawn, P = "/opt/some/exiftool", N = 4;
  const dom = { mode: ["throw", "reject", "late", "undefined"], fails: [...Array(2 ** N).keys()], spawnFails: [...Array(8).keys()], procs: [1, 2], retries: [0, 1], recycle: [false, true] };
  let n = 0;
  for (const c of product(dom)) {
    if (n++ % shard.of !== shard.part) continue;
    const env = new Env().install();
    let asked = 0, spawned = 0, et;
    cp.spawn = () => {
      if (c.spawnFails >> spawned++ & 1) throw Object.assign(new Error("spawn EAGAIN"), { code: "EAGAIN" });
      return autoChild(env, (cmd) => { const f = cmd.args.find((a) => /^\/s\/\w+-\d/.test(a)) ?? "", k = Object.keys(KINDS).find((x) => f.includes("/" + x + "-")); return { out: cmd.args.includes("-ver") ? KINDS.version.out() : k ? KINDS[k].out(f) : "" }; });
    };
    const exiftoolPath = () => {
      if (!(c.fails >> asked++ & 1)) return P;
      if (c.mode === "throw") throw new Error("not found");
      if (c.mode === "undefined") return Promise.reject(undefined);
      return c.mode === "reject" ? Promise.reject(new Error("not found")) : new Promise((_, no) => setTimeout(() => no(new Error("not found")), 500));
    };
    const key = "launcher:" + show(c), res = [];
    try {
      et = new M.ExifTool({ checkPerl: false, ignoreShebang: false, logger: quietLogger, exiftoolPath, maxProcs: c.procs, maxTasksPerProcess: c.recycle ? 1 : 100, taskRetries: c.retries, minDelayBetweenSpawnMillis: 0, onIdleIntervalMillis: 1000, healthCheckIntervalMillis: 0, maxReasonableProcessFailuresPerMinute: 0 });
      for (const wave of [["read", "write"], ["version", "buf"], ["read", "edit"]]) {
        const ps = wave.map((k, i) => { const f = `/s/${k}-${res.length + i}.jpg`, r = { k, f, n: 0 }; KINDS[k].call(f)(et).then((v) => { r.n++; r.v = v; }, (e) => { r.n++; r.e = e ?? "undefined"; }); return r; });
        res.push(...ps);
        await env.pump(() => ps.every((r) => r.n), 120_000);
      }
    } catch (e) { ctx.violate(key + ":threw", "threw " + (e && e.stack), c); }
    finally { cp.spawn = realSpawn; env.dispose(); process.removeAllListeners("beforeExit"); process.removeAllListeners("exit"); }
    ctx.eval(key); ctx.add("transitions", res.length + asked + spawned); ctx.outcome("launcher");
    for (const [i, r] of res.entries()) {
      if (r.n !== 1) ctx.violate(key + ":unsettled:" + r.k + i, `${r.k}(${r.f}) settled ${r.n} times although the program could be launched`, c);
      else if (r.e) ctx.violate(key + ":failed:" + r.k + i, `${r.k}(${r.f}) rejected: ${r.e}`, c);
      else if (!KINDS[r.k].ok(r.f, r.v)) ctx.violate(key + ":wrong:" + r.k + i, `${r.k}(${r.f}) resolved with ${show(r.v)}`, c);
    }
  }
  ctx.sample({ launcherConfigurations: n });
}

module.exports = {
  id: "C02", level: "model_checking",
  rule: "distinct = distinct event histories (calls, spawns, commands, deliveries, timers, faults, settlements) executed on the built library",
  bounds: (t) => ({ deviations: t === "quick" ? 2 : 3, faultsPerHistory: 2, calls: 3, children: "1-2 concurrent, unlimited replacements", horizonVirtualMs: 120000 }),
  assumptions: ["stand-in children; a child killed with SIGKILL is gone at once", "virtual time: timers fire in due order, but any timer may fire before a pending delivery"],
  scenarios: SC,
  shards(tier) {
    const s = [];
    for (const n of Object.keys(SC)) { const of = SC[n].dead ? 1 : tier === "quick" ? (SC[n].solo ? 1 : 2) : (SC[n].solo ? 2 : 8); for (let p = 0; p < of; p++) s.push({ name: n, part: p, of }); }
    for (let p = 0; p < 4; p++) s.push({ kind: "launcher", part: p, of: 4 });
    return s.sort((a, b) => b.of - a.of);
  },
  async run(shard, ctx) {
    if (shard.kind === "launcher") return launcher(shard, ctx);
    const M = load(ctx.dist);
    await explore({ M, scenario: pool(shard.name, SC[shard.name]), bound: SC[shard.name].dead ? 0 : SC[shard.name].poison && ctx.quick ? 1 : ctx.quick ? 2 : 3, ctx, check: checker(SC[shard.name]), part: [shard.part, shard.of] });
  },
};
