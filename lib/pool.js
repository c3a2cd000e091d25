"use strict";
// Scenarios over the process pool: calls, shutdown requests and faults.
const { quietLogger } = require("./explore.js");
const { KINDS } = require("./answers.js");

// d: {ops:[[kind,file,opts?]], maxProcs, retries, maxTasks, children, faults, ends:[...], probe, controlSpawn, timeouts}
const ENDS = {
  graceful: (et) => et.end(true),
  force: (et) => et.end(false),
  dispose: (et) => { et[Symbol.dispose](); },
  asyncDispose: (et) => et[Symbol.asyncDispose](),
  close: (et) => et.closeChildProcesses(true),
  // the host process drains its event loop, or exits
  hostDrain: () => { for (const l of process.listeners("beforeExit")) l(0); },
  hostExit: (et, run) => { for (const l of process.listeners("exit")) l(0); run.exitLeft = run.alive().filter((c) => c.signals.length === 0).map((c) => c.id); },
  closeForce: (et) => et.closeChildProcesses(false),
};
function pool(name, d) {
  const f = () => {
    const files = {};
    const ops = d.ops.map(([k, file, o], i) => {
      const K = KINDS[k];
      if (k !== "version") {
        const full = K.out(file);
        files[file] = { answers: o?.answers ?? [{ out: full, ...(d.cut ? { cuts: [Math.floor(full.length / 2)] } : {}) }] };
      }
      return { name: k + i, kind: k, file: k === "version" ? "-ver" : file, client: o?.client ?? "c" + i, call: K.call(file), after: o?.after };
    });
    (d.ends || []).forEach((e, i) => ops.push({ name: e + i, end: e, client: "end" + i, late: true, call: ENDS[e] }));
    if (d.lateCall) d.lateCall.forEach(([k, file], i) => {
      if (k !== "version") files[file] = { answers: [{ out: KINDS[k].out(file) }] };
      ops.push({ name: "late" + k + i, kind: k, file: k === "version" ? "-ver" : file, lateCall: true, client: "late" + i, late: true, call: KINDS[k].call(file), after: (run) => run.ops.some((o) => o.end && o.state !== "new") });
    });
    // calls made once everything else has settled
    if (d.probe) (d.probe === true ? ["read"] : d.probe).forEach((k, i) => {
      const file = k === "version" ? "-ver" : `/s/probe${i || ""}.jpg`;
      if (k !== "version") files[file] = { answers: [{ out: KINDS[k].out(file) }] };
      ops.push({ name: "probe" + (i || ""), kind: k, file, probe: true, client: "probe", late: true, call: KINDS[k].call(file), after: (run) => run.ops.every((o) => o.probe || o.state === "ok" || o.state === "err") });
    });
    return {
      files, ops, faults: d.faults || {}, children: d.children, controlSpawn: d.controlSpawn,
      timerRaces: d.timerRaces, horizonMs: d.horizonMs || 120_000, maxSteps: d.maxSteps || 3000,
      onSettle: d.onSettle, invariant: d.invariant, after: d.after,
      make: (M, run) => new M.ExifTool({ checkPerl: false, logger: quietLogger, maxProcs: d.maxProcs ?? 1, minDelayBetweenSpawnMillis: 0, maxTasksPerProcess: d.maxTasks ?? 100, healthCheckIntervalMillis: 0, healthCheckCommand: "-ver\n-health\n-execute\n", onIdleIntervalMillis: 1000, taskTimeoutMillis: 5000, spawnTimeoutMillis: 5000, taskRetries: d.retries ?? 0, processFactory: run.makeFactory(), ...(d.opts || {}) }),
    };
  };
  f.label = name;
  f.d = d;
  return f;
}
const FAULTS = ["crash", "stall", "garbage", "stderrGarbage", "eof", "perr"];
module.exports = { pool, ENDS, FAULTS };
