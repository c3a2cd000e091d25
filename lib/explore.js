"use strict";
// Stateless, deviation-bounded exploration of the real library under a controlled
// environment. An execution is a sequence of choices; choice 0 is the default
// (issue calls, deliver output, then advance time), any other choice costs one
// deviation (a reordering, a delay or a fault). All executions with at most `bound`
// deviations are run, each from a fresh instance.
const { Env, FakeChild, READY, quietLogger } = require("./env.js");

class Divergence extends Error {}

// A scripted exiftool child: answers are queued as pieces and delivered by the explorer.
function scriptedChild(run, kind) {
  const env = run.env;
  const ch = new FakeChild(env, {
    deaf: kind.deaf,
    onCommand(c, cmd) {
      run.onCommand(c, cmd);
      if (c.stalled) return;
      const pieces = run.answer(c, cmd);
      for (const p of pieces) c.queue.push(p);
    },
    onExitCommand(c) { if (!c.kind.deaf && !c.stalled) c.queue.push({ exit: 0, tag: "exit" }); },
  });
  ch.queue = [];
  ch.kind = kind;
  return ch;
}

class Run {
  constructor(M, scenario) {
    this.M = M; this.sc = scenario;
    this.env = new Env();
    this.trace = []; this.events = [];
    this.ops = scenario.ops.map((o, i) => ({ ...o, i, state: "new", settles: 0 }));
    this.faults = { ...(scenario.faults || {}) };
    this.sent = []; // commands received by children, in order: {child, cmd, op}
    this.attempts = new Map();
    this.spawnQ = [];
    this.notes = [];
  }
  ev(e) { this.events.push(e); }
  onCommand(c, cmd) {
    if (cmd.args.length === 1 && /^-ver$/i.test(cmd.args[0]) && cmd.n === 0) { this.ev(`c${c.id}<ver`); cmd.startup = true; return; }
    const file = this.fileOf(cmd);
    this.sent.push({ child: c, cmd, file, at: this.env.time });
    this.ev(`c${c.id}<${file}`);
    // protocol invariant: one command at a time
    if (c.outstanding) this.notes.push(`child c${c.id} given a command while ${c.outstanding} unanswered`);
    c.outstanding = file || "?";
    c.lastFile = file || "?";
    if (c.stalled) { this.hits = this.hits || new Map(); this.hits.set(c.lastFile, (this.hits.get(c.lastFile) || 0) + 1); }
    c.userCommands = (c.userCommands || 0) + 1;
  }
  // a fault strikes child c: the call running on it (if still unsettled) is affected
  hit(c, what) {
    this.ev(`c${c.id}!${what}`);
    c.faulted = true;
    this.hits = this.hits || new Map();
    if (c.lastFile && this.ops.some((o) => (o.file ?? "-ver") === c.lastFile && o.state === "pending")) {
      if (what === "garbage" || what === "stderr") (this.noise = this.noise || new Set()).add(c.lastFile);
      this.hits.set(c.lastFile, (this.hits.get(c.lastFile) || 0) + 1);
    }
  }
  fileOf(cmd) {
    const f = Object.keys(this.sc.files);
    if (cmd.args.includes("-health")) return "-health";
    return cmd.args.find((a) => f.includes(a)) ?? (cmd.args.some((a) => /^-ver$/i.test(a)) ? "-ver" : cmd.args.some((a) => /^-listx$/i.test(a)) ? "-listx" : undefined);
  }
  // pieces for the answer of `cmd`
  answer(c, cmd) {
    if (cmd.startup) {
      if (c.kind.badStart) return [{ err: "Error: no good\n", tag: "verr" }, { exit: 1, tag: "die" }];
      return [{ out: "13.59\n" + READY, last: true, tag: "ver" }];
    }
    const file = this.fileOf(cmd);
    const n = (this.attempts.get(file) || 0) + 1;
    this.attempts.set(file, n);
    const spec = this.sc.files[file] ?? (file === "-ver" || file === "-health" ? { answers: [{ out: "13.59\n" }] } : { answers: [{ out: "" }] });
    const a = spec.answers[Math.min(n, spec.answers.length) - 1];
    const pieces = [];
    if (a.err) pieces.push({ err: a.err, tag: "e" });
    if (a.crash) { if (a.out) pieces.push({ out: a.out, tag: "o" }); pieces.push({ exit: 1, tag: "die", poison: true }); return pieces; }
    if (a.stall) { this.hit(c, "stall"); return pieces; }
    const full = Buffer.from((a.out ?? "") + READY, "utf8");
    const cuts = (a.cuts || []).map((x) => (x < 0 ? full.length + x : x)).filter((x) => x > 0 && x < full.length).sort((x, y) => x - y);
    let p = 0;
    for (const x of [...cuts, full.length]) { pieces.push({ out: full.subarray(p, x), tag: "o", last: x === full.length }); p = x; }
    return pieces;
  }
  deliver(c) {
    const p = c.queue.shift();
    this.delivered = (this.delivered || 0) + 1;
    if (p.exit != null) { if (p.poison) this.hit(c, "poison"); this.ev(`c${c.id}!exit`); c.queue.length = 0; c.exit(p.exit); return; }
    if (p.err != null) { c.err(p.err); return; }
    if (p.last) { c.outstanding = undefined; }
    c.out(p.out);
  }
  makeFactory() {
    return async () => {
      const n = this.spawned = (this.spawned || 0) + 1;
      const kinds = this.sc.children || [{}];
      const kind = kinds[Math.min(n, kinds.length) - 1];
      if (kind.failSpawn) throw new Error("spawn failed");
      if (this.sc.controlSpawn) await new Promise((r) => { this.spawnQ.push(r); });
      this.ev("spawn");
      return scriptedChild(this, kind);
    };
  }
  issue(op) {
    op.state = "pending";
    op.issuedAt = this.env.time;
    op.issuedSeq = this.trace.length;
    this.ev("call " + op.name);
    let p;
    try { p = op.call(this.et, this); } catch (e) { p = Promise.reject(e); op.threw = true; }
    Promise.resolve(p).then(
      (v) => { op.settles++; op.state = "ok"; op.value = v; op.at = this.env.time; this.ev("ok " + op.name); this.sc.onSettle?.(this, op); },
      (e) => { op.settles++; op.state = "err"; op.error = e; op.at = this.env.time; this.ev("err " + op.name); this.sc.onSettle?.(this, op); },
    );
  }
  alive() { return this.env.children.filter((c) => !c.dead); }
  enabled() {
    const acts = [];
    // one client per `client` label: its next op is enabled once the previous one was issued
    // (async) or settled (sync client)
    const seen = new Set();
    for (const op of this.ops) {
      const cl = op.client ?? "main";
      if (seen.has(cl)) continue;
      if (op.state === "new") { seen.add(cl); if (!op.after || op.after(this)) acts.push({ name: "call " + op.name, late: op.late, go: () => this.issue(op) }); }
      else if (op.state === "pending" && !op.async) seen.add(cl);
    }
    const early = acts.filter((a) => !a.late), late = acts.filter((a) => a.late);
    const list = [...early];
    for (const c of this.env.children) if (!c.dead && c.queue.length) list.push({ name: "deliver c" + c.id + ":" + c.queue[0].tag, go: () => this.deliver(c) });
    if (this.spawnQ.length) list.push({ name: "spawned", go: () => this.spawnQ.shift()() });
    const t = this.env.nextTimer();
    const quiet = list.length === 0;
    // late ops (end, dispose...) run by default only once everything else has settled
    const settled = this.ops.every((o) => o.late || o.state === "ok" || o.state === "err");
    if (settled && late.length) list.unshift(...late); 
    if (t && (quiet || this.sc.timerRaces !== false)) list.push({ name: "timer+" + (t.at - this.env.time), go: () => this.env.fire(t) });
    if (!settled) list.push(...late);
    for (const c of this.env.children) {
      if (c.dead) continue;
      const fault = (kind, name, go) => list.push({ name: name + " c" + c.id, go: () => { this.faults[kind]--; this.hit(c, name); go(); } });
      if (this.faults.crash > 0) fault("crash", "crash", () => { c.queue.length = 0; c.exit(null, "SIGSEGV"); });
      if (this.faults.stall > 0 && !c.stalled && (c.outstanding || c.commands.length === 1)) fault("stall", "stall", () => { c.stalled = true; c.queue = c.queue.filter((q) => q.exit != null); });
      if (this.faults.garbage > 0) fault("garbage", "garbage", () => { c.out("garbage\n"); });
      if (this.faults.stderrGarbage > 0) fault("stderrGarbage", "stderr", () => { c.err("Error: boom\n"); });
      if (this.faults.eof > 0) fault("eof", "pipe", () => { for (const st of ["stdout", "stdin", "stderr"]) if (c[st].listenerCount("error")) c[st].emit("error", new Error("EPIPE")); });
      if (this.faults.perr > 0) fault("perr", "procerr", () => { c.emit("error", new Error("child error")); });
      if (this.faults.deaf > 0 && !c.deafened) fault("deaf", "deaf", () => { c.deafened = true; c.behaviour.deaf = true; c.kind = { ...c.kind, deaf: true }; c.behaviour.onExitCommand = () => {}; });
    }
    return list;
  }
  done() { return this.ops.every((o) => o.state === "ok" || o.state === "err"); }
  // expect[i] = name of action taken at step i when replaying (divergence check)
  async execute(prefix, expect) {
    this.env.install();
    try {
      this.et = this.sc.make(this.M, this);
      const points = [];
      const horizon = this.env.time + (this.sc.horizonMs || 120_000);
      let steps = 0;
      for (;;) {
        await this.env.drain();
        this.sc.invariant?.(this);
        if (this.done()) break;
        const acts = this.enabled();
        if (acts.length === 0) { this.deadlock = true; break; }
        if (this.env.time > horizon || steps > (this.sc.maxSteps || 1500)) { this.timedOut = true; break; }
        const i = steps++;
        const choice = prefix[i] ?? 0;
        if (choice >= acts.length) throw new Divergence(`choice ${choice} of ${acts.length} at step ${i}`);
        if (expect && i < expect.length && expect[i] !== acts[choice].name) throw new Divergence(`step ${i}: expected ${expect[i]} got ${acts[choice].name}`);
        points.push(acts.map((a) => a.name));
        this.trace.push(acts[choice].name);
        acts[choice].go();
      }
      await this.env.drain();
      if (this.sc.after) await this.sc.after(this);
      this.points = points;
      return this;
    } finally {
      process.removeAllListeners("beforeExit");
      process.removeAllListeners("exit");
      this.env.dispose();
    }
  }
}

async function explore({ M, scenario, bound, ctx, check, part = [0, 1], maxRuns = Infinity }) {
  // determinism: the default execution twice
  const r0 = await new Run(M, scenario()).execute([]);
  const r1 = await new Run(M, scenario()).execute([]);
  if (JSON.stringify([r0.trace, r0.events]) !== JSON.stringify([r1.trace, r1.events])) throw new Divergence("default execution is not deterministic: " + JSON.stringify([r0.trace, r1.trace]));
  let runs = 0;
  let topCounter = 0;
  const visit = async (prefix, expect, cost, first) => {
    if (runs >= maxRuns) { ctx.add("capped"); return; }
    const x = first ?? await new Run(M, scenario()).execute(prefix, expect);
    const own = cost > 0 || part[0] === 0;
    if (own) {
      runs++;
      ctx.eval(JSON.stringify([scenario.label, x.events]));
      ctx.add("transitions", x.trace.length);
      ctx.outcome(x.ops.map((o) => o.state).join(","));
      const label = scenario.label + " " + JSON.stringify(x.trace.slice(0, Math.max(prefix.length + 6, 12)).map((n, i) => (prefix[i] ? "*" + n : n)));
      check(x, (key, msg) => ctx.violate(`${scenario.label}:${key}`, msg + "\nschedule: " + label, { scenario: scenario.label, prefix: [...prefix] }));
      if (runs <= 2 || runs === 50) ctx.sample({ scenario: scenario.label, schedule: x.trace, outcome: x.ops.map((o) => o.name + "=" + o.state) });
    }
    if (cost >= bound) return;
    for (let i = prefix.length; i < x.points.length; i++) {
      for (let alt = 1; alt < x.points[i].length; alt++) {
        if (cost === 0 && (topCounter++ % part[1]) !== part[0]) continue;
        const p = [...prefix, ...Array(i - prefix.length).fill(0), alt];
        await visit(p, [...x.trace.slice(0, i), x.points[i][alt]], cost + 1);
        if (ctx.violations.length >= ctx.maxViolations) return;
      }
    }
  };
  await visit([], undefined, 0, r0);
  ctx.add("executions", runs);
}

module.exports = { Run, explore, Divergence, quietLogger };
