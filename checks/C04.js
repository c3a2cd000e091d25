"use strict";
const { load } = require("../lib/load.js");
const { explore } = require("../lib/explore.js");
const { KINDS } = require("../lib/answers.js");
const { pool, ENDS } = require("../lib/pool.js");
const { show } = require("../lib/harness.js");
const { Env, FakeChild, READY, isVersion, quietLogger } = require("../lib/env.js");
const A = "/s/a.jpg", B = "/s/b.jpg";

const HOST = ["exit", "beforeExit"];
const SC = {};
const E4 = ["graceful", "force", "dispose", "asyncDispose"];
const base = (o) => ({ ops: [["read", A], ["write", B]], lateCall: [["read", "/s/l1.jpg"], ["write", "/s/l2.jpg"]], faults: { crash: 1, stall: 1, deaf: 2 }, retries: 0, ...o });
for (const e of E4) for (const p of [1, 2]) {
  SC[`${e}-p${p}`] = base({ ends: [e], maxProcs: p });
  SC[`${e}-p${p}-deaf`] = base({ ends: [e], maxProcs: p, children: [{ deaf: true }] });
  SC[`${e}-p${p}-slowspawn`] = base({ ends: [e], maxProcs: p, controlSpawn: true });
  SC[`${e}-p${p}-retry`] = base({ ends: [e], maxProcs: p, retries: 1 });
}
for (const e of E4) for (const f of E4) SC[`${e}+${f}`] = base({ ends: [e, f], maxProcs: 1, lateCall: [["version", ""]] });
for (const e of E4) SC[`${e}-idle`] = base({ ops: [], ends: [e, e], maxProcs: 1 });
// the same call before and after the end
for (const k of Object.keys(KINDS)) for (const e of E4) SC[`${e}-again-${k}`] = base({ ops: [[k, A]], ends: [e], maxProcs: 1, lateCall: [[k, A]], faults: {} });
// the host process comes to its end without having ended the instance
for (const e of ["hostDrain", "hostExit"]) for (const p of [1, 2]) for (const [n, o] of Object.entries({ plain: {}, deaf: { children: [{ deaf: true }] }, slowspawn: { controlSpawn: true }, recycle: { maxTasks: 1, ops: [["read", A], ["write", B], ["read", "/s/c.jpg"]] }, ended: { ends: ["graceful", e] }, closing: { ends: ["close", e] }, disposing: { ends: ["asyncDispose", e] } }))
  if (!(n === "closing" && e === "hostDrain")) SC[`${e}-p${p}-${n}`] = base({ ends: [e], maxProcs: p, lateCall: [], ...o, host: e });
// a graceful shutdown that would take very long: disposal must force it at its time limit
for (const e of ["dispose", "asyncDispose"]) for (const ms of [0, 200, 700]) for (const k of ["read", "write"])
  SC[`${e}-force-${k}-${ms}`] = base({ ends: [e], ops: [[k, A, { answers: [{ stall: true }] }]], lateCall: [], maxProcs: 1, children: [{ deaf: true }], faults: {}, limit: ms, opts: { disposalTimeoutMs: ms, asyncDisposalTimeoutMs: ms, endGracefulWaitTimeMillis: 60_000, taskTimeoutMillis: 50_000 }, always: true });

function mk(name) {
  const d = { ...SC[name] };
  d.onSettle = (run, op) => {
    if (op.end && !op.snap) op.snap = { alive: run.alive().filter((c) => c.signals.length === 0).map((c) => c.id), open: run.ops.filter((o) => o.kind && o.issuedBeforeEnd && o.settles === 0), delivered: run.delivered || 0 };
    if (op.kind) op.deliveredBy = run.delivered || 0;
  };
  d.after = async (run) => {
    // what is left once the whole shutdown is over
    await run.env.pump(() => run.doneAt !== undefined, 60_000);
    await run.env.drain();
    if (run.doneAt !== undefined && !run.spawnQ.length) run.left = { timers: [...run.env.timers].filter((t) => t.refd).map((t) => t.at - run.env.time).filter((ms) => ms > 100), listeners: HOST.filter((e) => process.listenerCount(e) > run.listening[e]) };
    // let everything that is still scheduled happen (virtual time)
    await run.env.pump(() => false, 40_000);
    while (run.spawnQ.length) { run.spawnQ.shift()(); await run.env.pump(() => false, 40_000); }
    run.late = { alive: run.alive().filter((c) => c.signals.length === 0).map((c) => c.id), ended: run.et.ended };
  };
  const f = pool(name, d);
  // observe requests for forced cleanup (closing or ending without grace)
  const watch = (make) => (M, run) => {
    run.listening = Object.fromEntries(HOST.map((e) => [e, process.listenerCount(e)]));
    const et = make(M, run);
    run.forced = [];
    for (const m of ["closeChildProcesses", "end"]) { const o = et.batchCluster[m].bind(et.batchCluster); et.batchCluster[m] = (g = true, ...r) => { if (!g) run.forced.push(run.env.time); const q = o(g, ...r); if (m === "end") q.promise.then(() => { run.doneAt ??= run.env.time; }, () => {}); return q; }; }
    return et;
  };
  const g = () => {
    const sc = f();
    sc.make = watch(sc.make);
    for (const op of sc.ops) {
      const call = op.call;
      if (op.end) op.call = (et, run) => {
        const o = run.ops.find((x) => x.name === op.name);
        if (run.endAt === undefined) { run.endAt = run.env.time; run.spawnedAtEnd = run.spawned || 0; run.sentAtEnd = run.sent.length; for (const x of run.ops) if (x.kind && x.state !== "new") x.issuedBeforeEnd = true; }
        const p = call(et, run);
        o.endedNow = et.ended;
        return p;
      };
      else op.call = (et, run) => { const o = run.ops.find((x) => x.name === op.name); o.afterEnd = run.endAt !== undefined; return call(et, run); };
    }
    return sc;
  };
  g.label = name;
  return g;
}
function check(name) {
  const d = SC[name];
  return (x, bad) => {
    if (d.host === "hostExit") { if (x.exitLeft?.length) bad("outlives", `the host process exits while children ${x.exitLeft} were neither exited nor signalled`); return; }
    for (const op of x.ops) {
      if (d.host && op.end && op.end !== d.host) continue;
      if (op.settles !== 1) { bad("unsettled:" + op.name, `${op.name} settled ${op.settles} times`); continue; }
      if (op.end) {
        if (op.state !== "ok") bad("enderr:" + op.name, `${op.name} rejected: ${op.error}`);
        if (op.endedNow !== true) bad("notended:" + op.name, `after ${op.name} was requested the instance does not report itself as ended`);
        // resolution of end()/asyncDispose: all earlier calls settled, all children gone or signalled
        if (op.end !== "dispose" && !d.host) {
          if (op.snap.alive.length && op.issuedFirst !== false) { if (firstEnd(x) === op || op.end !== "asyncDispose") bad("alive:" + op.name, `${op.name} resolved while children ${op.snap.alive} were neither exited nor signalled`); }
          const open = op.snap.open.filter((o) => o.settles && o.deliveredBy > op.snap.delivered);
          if (open.length && (firstEnd(x) === op || op.end !== "asyncDispose")) bad("open:" + op.name, `${op.name} resolved while ${open.map((o) => o.name)} had not settled and waited for a child`);
        }
      } else if (op.afterEnd) {
        if (op.state !== "err") bad("accepted:" + op.name, `${op.name}, made after the end was requested, did not reject`);
        if (op.kind !== "version" && x.sent.slice(x.sentAtEnd).some((s) => s.file === op.file)) bad("sentlate:" + op.name, `${op.name}, made after the end was requested, reached a child`);
      }
      if (op.kind && op.state === "ok" && !KINDS[op.kind].ok(op.file, op.value)) bad("wrong:" + op.name, show(op.value));
    }
    if (x.endAt !== undefined && !(d.host && d.ends.length > 1)) {
      if ((x.spawned || 0) > x.spawnedAtEnd) bad("spawned", `a child was requested after the end was requested`);
      if (x.late.alive.length) bad("orphan", `children ${x.late.alive} were left running without any signal`);
      if (x.left?.timers.length) bad("timer", `the shutdown is over, but timers due in ${x.left.timers} ms still keep the host process running`);
      if (x.left?.listeners.length) bad("listener", `the shutdown is over, but ${x.left.listeners} listeners of the instance remain on the host process`);
      if (x.late.ended !== true) bad("revived", "the instance no longer reports itself as ended");
      const newWork = x.sent.slice(x.sentAtEnd).filter((s) => s.file !== "-health");
      if (newWork.length) bad("newwork", `${newWork.map((s) => s.file)} was sent to a child after the end was requested`);
      if (d.ends.length === 1 && /dispose/i.test(d.ends[0])) {
        const limit = d.limit ?? (d.ends[0] === "dispose" ? 1000 : 5000);
        const early = x.forced.filter((t) => t < x.endAt + limit);
        if (early.length) bad("forcedearly", `forced cleanup requested at +${early.map((t) => t - x.endAt)} ms, before the disposal limit of ${limit} ms`);
        if (d.limit !== undefined && !(x.doneAt <= x.endAt + limit) && !x.forced.some((t) => t <= x.endAt + limit + 100)) bad("notforced", `graceful disposal did not finish within its limit of ${limit} ms, but no forced cleanup was requested (requests at ${x.forced.map((t) => t - x.endAt)})`);
      }
    }
  };
}
const firstEnd = (x) => x.ops.filter((o) => o.end && o.state !== "new").sort((a, b) => a.issuedSeq - b.issuedSeq)[0];

// A command is under way when ending is requested: forced requests do not wait for it. A
// child obeys the exit command only once it has answered. (The pinned batch-cluster discards
// the answer of a command under way even for graceful requests, so that is not judged.)
async function grace(ctx) {
  const M = load(ctx.dist), WAYS = { graceful: 1, dispose: 1, asyncDispose: 1, close: 1, force: 0, closeForce: 0 };
  for (const way of Object.keys(WAYS)) for (const kind of Object.keys(KINDS)) for (const delay of WAYS[way] ? [20, 200, 900, 5000, Infinity] : [1500, 5000, Infinity]) for (const at of [1, 10, 100]) for (const queued of [0, 1, 2]) {
    if (at > delay) continue;
    const env = new Env().install(), key = `grace:${way}:${kind}:${delay}:${at}:${queued}`, f = "/s/a.jpg";
    let st, asked, over, endErr;
    const others = [];
    try {
      const et = new M.ExifTool({ checkPerl: false, logger: quietLogger, maxProcs: 1, taskRetries: 0, minDelayBetweenSpawnMillis: 0, healthCheckIntervalMillis: 0, healthCheckCommand: "-ver\n-health\n-execute\n", processFactory: async () => {
        let busy = 0, leaving = false;
        const first = { n: 0 };
        return new FakeChild(env, {
          onCommand(ch, c) {
            const mine = first.n++ > 0 && c.args.some((a) => a.includes("a.jpg") || (kind === "version" && a === "-ver"));
            const say = () => { busy--; ch.out((mine ? KINDS[kind].out(f) : isVersion(c) ? "13.59\n" : "") + READY); if (leaving && !busy) ch.exit(0); };
            busy++;
            if (!mine) queueMicrotask(say); else if (delay !== Infinity) setTimeout(say, delay);
          },
          onExitCommand(ch) { leaving = true; if (!busy) queueMicrotask(() => ch.exit(0)); },
        });
      } });
      // a first call brings the child up, then the call in question and some behind it
      let warm; et.write("/s/w.txt", { Title: "x" }).then(() => { warm = 1; }, () => { warm = 1; });
      await env.pump(() => warm, 20_000);
      KINDS[kind].call(f)(et).then((v) => { st = { v }; }, (e) => { st = { e }; });
      for (let i = 0; i < queued; i++) { const r = {}; others.push(r); et.read(`/s/q${i}.jpg`).then(() => { r.s = "ok"; }, () => { r.s = "err"; }); }
      await env.pump(() => false, at);
      asked = env.time;
      Promise.resolve(ENDS[way](et)).then(() => { over = env.time; }, (e) => { over = env.time; endErr = e; });
      await env.pump(() => over !== undefined && st !== undefined, 30_000);
      await env.pump(() => false, 10_000);
    } finally { env.dispose(); process.removeAllListeners("beforeExit"); process.removeAllListeners("exit"); }
    ctx.eval(key); ctx.add("transitions", env.children.length + 3); ctx.add("traces"); ctx.outcome(`${way}:${st?.e ? "err" : "ok"}`);
    const bad = (k, m) => ctx.violate(key + ":" + k, `${m}\n${way} requested ${at} ms into a ${kind} that ExifTool needs ${delay} ms for, ${queued} calls behind it`, { way, kind, delay, at, queued });
    if (endErr) bad("enderr", "the end request rejected: " + endErr);
    if (over === undefined) bad("endless", "the end request never settled");
    if (!st) bad("unsettled", "the running call never settled");
    else if (!st.e && !KINDS[kind].ok(f, st.v)) bad("wrong", `the running call gave ${show(st.v)}`);
    if (!WAYS[way] && !(over - asked <= 1000)) bad("waited", `a forced end waited ${over - asked} ms`);
    if (!/^close/.test(way)) for (const [i, o] of others.entries()) if (o.s === undefined) bad("queued" + i, "a waiting call never settled");
  }
  ctx.sample({ grace: Object.keys(WAYS) });
}

module.exports = {
  id: "C04", level: "model_checking",
  rule: "distinct = distinct event histories executed on the built library",
  bounds: (t) => ({ deviations: t === "quick" ? 2 : 3, hostEnd: "exit or drained event loop at every point", shutdownRequests: "1 or 2 of {end(true), end(false), dispose, asyncDispose}, at every point of the history", faults: "crash, stall, child ignoring exit command and SIGTERM" }),
  assumptions: ["SIGKILL is effective at once on stand-in children; SIGTERM is ignored by deaf ones"],
  shards(tier) {
    const s = [];
    for (const n of Object.keys(SC)) { const of = tier === "quick" ? 1 : 4; for (let p = 0; p < of; p++) s.push({ name: n, part: p, of }); }
    s.push({ kind: "grace" });
    return s;
  },
  async run(shard, ctx) {
    if (shard.kind === "grace") return grace(ctx);
    const M = load(ctx.dist);
    await explore({ M, scenario: mk(shard.name), bound: ctx.quick ? 2 : 3, ctx, check: check(shard.name), part: [shard.part, shard.of] });
  },
};
