"use strict";
const cp = require("node:child_process");
const { load } = require("../lib/load.js");
const { explore } = require("../lib/explore.js");
const { KINDS, readAnswer } = require("../lib/answers.js");
const { pool } = require("../lib/pool.js");
const { Env, autoChild, quietLogger } = require("../lib/env.js");
const { show, product } = require("../lib/harness.js");
const F = ["/s/a.jpg", "/s/b.jpg", "/s/c.jpg", "/s/d.jpg", "/s/e.jpg"];

const SC = {};
for (const p of [1, 2, 3]) for (const t of [1, 2, 3]) for (const delay of [0, 50]) {
  SC[`p${p}-t${t}-d${delay}`] = { maxProcs: p, maxTasks: t, cut: true, ops: [["read", F[0]], ["write", F[1]], ["buf", F[2]], ["readRaw", F[3]], ["read", F[4]]], faults: {}, clean: true, opts: { minDelayBetweenSpawnMillis: delay } };
}
for (const p of [1, 2]) for (const t of [1, 2]) {
  SC[`faulty-p${p}-t${t}`] = { maxProcs: p, maxTasks: t, retries: 1, ops: [["read", F[0]], ["write", F[1]], ["version", ""], ["read", F[3]]], faults: { crash: 2, stall: 1, garbage: 1 } };
  SC[`slow-p${p}-t${t}`] = { maxProcs: p, maxTasks: t, controlSpawn: true, ops: [["read", F[0]], ["write", F[1]], ["read", F[2]], ["read", F[3]]], faults: {}, clean: true };
  SC[`close-p${p}-t${t}`] = { maxProcs: p, maxTasks: t, retries: 1, ops: [["read", F[0]], ["read", F[1]], ["read", F[2]]], ends: ["close"], faults: {} };
}
function mk(name) {
  const d = { ...SC[name] };
  d.invariant = (run) => {
    const busy = run.env.children.filter((c) => !c.dead && c.outstanding && run.ops.some((o) => o.file === c.outstanding && o.state === "pending"));
    if (busy.length > d.maxProcs) run.notes.push(`${busy.length} children run tasks at once (maxProcs ${d.maxProcs})`);
    if (run.et.busyProcs > d.maxProcs) run.notes.push(`busyProcs ${run.et.busyProcs} > ${d.maxProcs}`);
    // what the instance says about itself is what is there (a child that is gone or going is
    // not listed, one that works on a call is)
    const et = run.et, said = { pids: et.pids, busy: et.busyProcs, pending: et.pendingTasks, spawned: et.spawnedProcs };
    const note = (m) => run.notes.push(m + ` (reported ${JSON.stringify(said)})`);
    const dead = run.env.children.filter((c) => c.dead && said.pids.includes(c.pid));
    if (dead.length) note("a child that exited is still listed");
    if (busy.some((c) => !c.faulted && !said.pids.includes(c.pid)) && !d.ends) note("a child that works on a call is not listed");
    if (new Set(said.pids).size !== said.pids.length || said.pids.some((p) => !run.env.children.some((c) => c.pid === p))) note("pids are not the children's");
    if (said.spawned < run.env.children.length || said.spawned > (run.spawned || 0)) note(`${run.env.children.length} children were spawned of ${run.spawned || 0} asked for`);
    if (d.clean) {
      const open = run.ops.filter((o) => o.kind && o.state === "pending"), waiting = open.filter((o) => !run.sent.some((s) => s.file === o.file)).length;
      if (said.pending !== waiting) note(`${waiting} calls wait`);
      if (said.busy !== open.length - waiting) note(`${open.length - waiting} children work on calls`);
    }
    run.maxBusy = Math.max(run.maxBusy || 0, busy.length);
    for (const c of run.env.children) if ((c.userCommands || 0) > d.maxTasks) run.notes.push(`child ${c.id} was given ${c.userCommands} commands (limit ${d.maxTasks})`);
  };
  const f = pool(name, d);
  f.label = name;
  return f;
}
function check(name) {
  const d = SC[name];
  return (x, bad) => {
    for (const n of new Set(x.notes)) bad("limit:" + n.replace(/\d+/g, "#"), n);
    for (const op of x.ops) {
      if (op.settles !== 1) { bad("unsettled:" + op.name, `${op.name} settled ${op.settles} times`); continue; }
      if (!op.kind) continue;
      const n = x.sent.filter((s) => s.file === op.file).length;
      if (d.clean && op.state !== "ok") bad("lost:" + op.name, `${op.name} failed without any fault: ${op.error}`);
      if (d.clean && n !== 1) bad("repeat:" + op.name, `${op.name} was sent ${n} times`);
      if (op.state === "ok" && !(x.noise?.has(op.file)) && !KINDS[op.kind].ok(op.file, op.value)) bad("wrong:" + op.name, show(op.value));
    }
    // every command on a child comes after the startup check
    for (const s of x.sent) if (s.cmd.n === 0) bad("nostart", "a command was sent to a child before its startup check");
  };
}

// ---- launch configuration ----------------------------------------------------------
async function launch(shard, ctx) {
  const calls = [];
  const realSpawn = cp.spawn;
  let env;
  cp.spawn = (file, args, opts) => {
    calls.push({ file, args: [...args], opts: { ...opts, env: opts && opts.env && { ...opts.env } } });
    return autoChild(env, (c) => ({ out: c.args.includes("-json") ? readAnswer(c.args.at(-2)) : "" }));
  };
  const M = load(ctx.dist);
  const save = { ...process.env };
  const dom = {
    path: ["default", "string", "fn", "asyncfn", "promise", "blank"],
    args: [undefined, ["-stay_open", "True", "-@", "-"], ["-config", "/x y/z", "-stay_open", "True", "-@", "-"], ["wrapped"], []],
    env: [undefined, {}, { A: "1" }, { LANG: "de_DE" }, { EXIFTOOL_HOME: "/mine" }, { EXIFTOOL_HOME: "" }, { A: "1", LANG: "x", EXIFTOOL_HOME: "/m2", PERL5LIB: "/l" }, null],
    home: [undefined, "", " ", "/outer"],
    shebang: [undefined, true, false],
    checkPerl: [true, false],
  };
  let n = 0;
  for (const c of product(dom)) {
    if (n++ % shard.of !== shard.part) continue;
    calls.length = 0;
    process.env.SECRET_X = "s"; process.env.PERL5OPT = "-w"; process.env.LANG = "fr_FR"; process.env.LC_ALL = "fr_FR";
    if (c.home === undefined) delete process.env.EXIFTOOL_HOME; else process.env.EXIFTOOL_HOME = c.home;
    const P = "/opt/some dir/exiftool";
    const o = { checkPerl: c.checkPerl, logger: quietLogger, taskRetries: 0, maxProcs: 1 };
    if (c.path !== "default") o.exiftoolPath = { string: P, fn: () => P, asyncfn: async () => P, promise: Promise.resolve(P), blank: "" }[c.path];
    if (c.args) o.exiftoolArgs = [...c.args];
    const givenEnv = c.env && { ...c.env };
    if (c.env) o.exiftoolEnv = givenEnv; else if (c.env === null) o.exiftoolEnv = undefined; // present, but undefined
    if (c.shebang !== undefined) o.ignoreShebang = c.shebang;
    const vendored = await M.exiftoolPath?.();
    env = new Env().install();
    let r;
    const real = require("../lib/env.js").real;
    try {
      const et = new M.ExifTool(o);
      // which() and the vendored path use real file-system calls: poll for them
      const p = et.read("/s/a.jpg").then((v) => ({ v }), (e) => ({ e }));
      let got; p.then((x) => { got = x; });
      const t0 = real.now.call(Date);
      for (let i = 0; !got && real.now.call(Date) - t0 < 60_000; i++) {
        // (until something was launched, virtual time must not run ahead of real I/O)
        if (calls.length || i < 100) await env.pump(() => got || env.nextTimer() === undefined, calls.length ? 50 : 10);
        if (!got) await new Promise((q) => real.setTimeout.call(globalThis, q, 1));
      }
      r = got;
    } finally { env.dispose(); process.removeAllListeners("beforeExit"); process.removeAllListeners("exit"); }
    const key = show(c);
    ctx.eval(key); ctx.add("transitions", calls.length);
    const bad = (k, m) => ctx.violate("launch:" + k + ":" + key, m + "\noptions: " + key, c);
    if (!r || r.e) { bad("fail", "read failed: " + (r && r.e)); continue; }
    const call = calls[0];
    if (calls.length !== 1) bad("count", `${calls.length} processes launched for one call`);
    const exe = c.path === "default" || c.path === "blank" ? vendored : P;
    const wantArgs = c.args ?? ["-stay_open", "True", "-@", "-"];
    const useperl = c.shebang === true;
    const full = [call.file, ...call.args];
    if (useperl) { if (!/(^|\/)perl$/.test(full[0])) bad("perl", "expected the perl interpreter, got " + full[0]); full.shift(); }
    if (exe !== undefined && full[0] !== exe) bad("exe", `launched ${full[0]} instead of ${exe}`);
    if (show(full.slice(1)) !== show(wantArgs)) bad("args", `launched with ${show(full.slice(1))} instead of ${show(wantArgs)}`);
    if (call.opts.shell) bad("shell", "launched through a shell");
    if (call.opts.detached) bad("detached", "launched detached");
    const wantEnv = { ...(c.env || {}), LANG: "C" };
    if (c.home !== undefined && c.home.trim() !== "" && !(c.env && c.env.EXIFTOOL_HOME && c.env.EXIFTOOL_HOME.trim() !== "")) wantEnv.EXIFTOOL_HOME = c.home;
    const norm = (e) => show(Object.entries(e || {}).filter(([k, v]) => v !== undefined && !(k === "EXIFTOOL_HOME" && v === "")).sort());
    if (call.opts.env == null || norm(call.opts.env) !== norm(wantEnv)) bad("env", `environment ${show(call.opts.env)} instead of ${show(wantEnv)}`);
    if (c.env && show(givenEnv) !== show(c.env)) bad("mutated", "exiftoolEnv was modified");
    ctx.outcome("launched");
  }
  cp.spawn = realSpawn;
  for (const k of Object.keys(process.env)) if (!(k in save)) delete process.env[k];
  Object.assign(process.env, save);
  ctx.sample({ launchConfigurations: n });
}

module.exports = {
  id: "C21", level: "model_checking",
  rule: "distinct = distinct event histories, and launch option combinations, executed on the built library",
  bounds: (t) => ({ maxProcs: "1-3", maxTasksPerProcess: "1-3", calls: "3-5", deviations: t === "quick" ? 2 : 3, launchOptions: "full product of program (6), arguments (5), environment (8), outer EXIFTOOL_HOME (4), shebang (3), perl check (2)" }),
  assumptions: ["POSIX platform (the Windows launch path is not exercised)", "child_process.spawn is replaced by a recorder"],
  shards(tier) {
    const s = [];
    for (const n of Object.keys(SC)) { const of = tier === "quick" ? 1 : 4; for (let p = 0; p < of; p++) s.push({ name: n, part: p, of }); }
    for (let p = 0; p < 4; p++) s.push({ kind: "launch", part: p, of: 4 });
    return s;
  },
  async run(shard, ctx) {
    if (shard.kind === "launch") return launch(shard, ctx);
    const M = load(ctx.dist);
    await explore({ M, scenario: mk(shard.name), bound: ctx.quick ? 2 : 3, ctx, check: check(shard.name), part: [shard.part, shard.of] });
  },
};
