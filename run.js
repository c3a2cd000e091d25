#!/usr/bin/env node
"use strict";
// node run.js <property> [--tier quick|thorough] [--replay file] [--shard n]
const fs = require("node:fs");
const os = require("node:os");
const path = require("node:path");
const { fork } = require("node:child_process");
const { build, clean } = require("./lib/build.js");

const args = process.argv.slice(2);
const id = args[0];
const opt = (n) => { const i = args.indexOf("--" + n); return i < 0 ? undefined : args[i + 1]; };
const tier = opt("tier") || process.env.VERIF_TIER || "quick";
const seed = parseInt(process.env.VERIF_SEED || "1", 10) || 0;
const t0 = Date.now();
const EV = process.env.VERIF_EVIDENCE || path.join(__dirname, "evidence");
const TIMEOUT = (parseInt(opt("timeout") || "", 10) || (tier === "quick" ? 780 : 6 * 3600)) * 1000;

const check = require("./checks/" + id + ".js");
const KNOWN = JSON.parse(fs.readFileSync(path.join(__dirname, "known-findings.json"), "utf8")).findings.filter((f) => f.property === id && f.status === "open");
let b, stopped = false;
const kids = new Set();
function finish(code) {
  for (const k of kids) { try { k.kill("SIGKILL"); } catch {} }
  if (b) clean(b.root);
  process.exit(code);
}
process.on("SIGTERM", () => finish(2));
process.on("SIGINT", () => finish(2));

function runShard(shard, i, replay) {
  return new Promise((resolve) => {
    const env = { ...process.env, ...(shard.env || {}) };
    delete env.EXIFTOOL_HOME;
    if (!(shard.env && shard.env.TZ)) env.TZ = "UTC";
    const kid = fork(path.join(__dirname, "lib", "worker.js"), [], { env, stdio: ["ignore", "inherit", "inherit", "ipc"], execArgv: ["--max-old-space-size=3000", ...(check.execArgv || [])] });
    kids.add(kid);
    let got;
    const timer = setTimeout(() => { got = { kind: "timeout" }; kid.kill("SIGKILL"); }, Math.max(1000, TIMEOUT - (Date.now() - t0)));
    kid.on("message", (m) => { got = got || m; });
    // the worker's last message may be delivered after its exit: wait for the channel to close too
    let end, closed = false, done = false;
    const settle = (force) => {
      if (done || !end || (!closed && !force)) return;
      done = true;
      clearTimeout(timer); kids.delete(kid);
      resolve({ i, shard, ...(got || { kind: "died", error: "worker exited " + end }) });
    };
    kid.on("disconnect", () => { closed = true; setImmediate(settle); });
    kid.on("exit", (code, sig) => { end = code + " " + sig; if (!kid.connected) closed = true; setImmediate(settle); setTimeout(() => settle(true), 10_000).unref(); });
    kid.send({ id, shard, tier, seed, dist: b.dist, replay });
  });
}

(async () => {
  try { b = build(); } catch (e) { console.error("BUILD ERROR", e); return finish(2); }
  let shards = await check.shards(tier, { dist: b.dist });
  let replay;
  if (opt("replay")) { replay = JSON.parse(fs.readFileSync(opt("replay"), "utf8")); shards = [replay.shard]; }
  if (opt("shard")) shards = [shards[parseInt(opt("shard"), 10)]];
  const conc = Math.min(shards.length, parseInt(process.env.VERIF_JOBS || "", 10) || Math.min(8, os.cpus().length));
  const results = [];
  let next = 0;
  // (development: stop at the first shard with a violation)
  const failed = (r) => process.env.VERIF_FAILFAST && (r.kind === "crash" || (r.kind === "done" && r.result.violations.some((v) => !KNOWN.some((f) => f.keys.includes(v.key)))));
  await Promise.all(Array.from({ length: conc }, async () => {
    while (next < shards.length) {
      const i = next++;
      let r = await runShard(shards[i], i, replay && replay.detail);
      if (r.kind === "died" && !stopped) r = await runShard(shards[i], i, replay && replay.detail);
      if (stopped) return;
      results.push(r);
      if (failed(r)) { stopped = true; next = shards.length; for (const k of kids) k.kill("SIGKILL"); }
    }
  }));
  results.sort((a, c) => a.i - c.i);
  const counts = {}; let distinct = 0; const samples = []; const outcomes = new Map(); let violations = []; let harness = [];
  for (const r of results) {
    if (r.kind === "done") {
      for (const [k, v] of Object.entries(r.result.counts)) counts[k] = (counts[k] || 0) + v;
      distinct += r.result.distinct;
      for (const s of r.result.samples) if (samples.length < 12) samples.push(s);
      for (const [o, n] of r.result.outcomes) outcomes.set(o, (outcomes.get(o) || 0) + n);
      for (const v of r.result.violations) violations.push({ ...v, shard: r.shard });
    } else if (r.kind === "crash" && String(r.error).includes(path.join(path.basename(b.root), "dist"))) {
      violations.push({ key: "uncaught:" + String(r.error).split("\n")[0], msg: "library code raised an uncaught error: " + r.error, shard: r.shard });
    } else if (r.kind === "timeout" && Date.now() - t0 < TIMEOUT + 60000) {
      violations.push({ key: "hang:" + JSON.stringify(r.shard), msg: "shard did not terminate", shard: r.shard });
    } else harness.push(r);
  }
  for (const h of harness) console.error("HARNESS ERROR shard " + h.i + ": " + h.error);
  const known = KNOWN;
  const fresh = []; const hit = new Set();
  for (const v of violations) {
    const k = known.find((f) => f.keys.includes(v.key));
    if (k) hit.add(k); else fresh.push(v);
  }
  for (const k of hit) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
  const lvl = check.level;
  const coverage = {
    ...(lvl === "model_checking"
      ? { states: distinct, transitions: counts.transitions || 0, traces_validated_against_impl: counts.traces || 0 }
      : { evaluations: counts.evaluations || 0, distinct_nontrivial: distinct }),
    rule: check.rule, bounds: typeof check.bounds === "function" ? check.bounds(tier) : check.bounds,
    samples, exhaustive: harness.length === 0 && !counts.capped, shards: shards.length, counts,
    distinct_outcomes: outcomes.size, outcomes: [...outcomes].slice(0, 40),
  };
  fs.mkdirSync(path.join(EV, "replays"), { recursive: true });
  if (!replay) fs.writeFileSync(path.join(EV, id + ".json"), JSON.stringify({
    property: id, tier, seed, level: lvl, coverage, assumptions: check.assumptions || [],
    wall_s: (Date.now() - t0) / 1000, violations: fresh.length }, null, 1) + "\n");
  let n = 0;
  for (const v of fresh) {
    const f = path.join(EV, "replays", `${id}-${n++}.json`);
    fs.writeFileSync(f, JSON.stringify({ property: id, key: v.key, msg: v.msg, shard: v.shard, detail: v.detail }, null, 1));
    if (n <= 10) { console.log(`VIOLATION property=${id} replay=${f}`); console.log("  key: " + v.key + "\n  " + v.msg.split("\n").slice(0, 8).join("\n  ")); }
  }
  console.log(`${id} ${tier}: ${fresh.length ? "VIOLATED" : harness.length ? "ERROR" : "held"} evaluations=${counts.evaluations || 0} distinct=${distinct} transitions=${counts.transitions || 0} outcomes=${outcomes.size} wall=${((Date.now() - t0) / 1000).toFixed(1)}s`);
  finish(fresh.length ? 1 : harness.length ? 2 : 0);
})().catch((e) => { console.error(e); finish(2); });
