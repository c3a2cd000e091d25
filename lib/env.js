"use strict";
// Controlled environment: virtual clock and timers, fake child processes with the
// stdin/stdout protocol of `exiftool -stay_open True -@ -`, and an intercepted
// process.kill that only ever reaches fake pids. Nothing here spawns or signals a
// real process.
const { EventEmitter } = require("node:events");
const timersMod = require("node:timers");
const timersPromises = require("node:timers/promises");

const real = {
  setTimeout: globalThis.setTimeout, clearTimeout: globalThis.clearTimeout,
  setInterval: globalThis.setInterval, clearInterval: globalThis.clearInterval,
  setImmediate: globalThis.setImmediate, now: Date.now, kill: process.kill, psetTimeout: timersPromises.setTimeout,
};

const fsBusy = () => process.getActiveResourcesInfo().some((x) => x.startsWith("FSReq"));

const PID_BASE = 900_000_000; // far above any kernel pid_max

class VTimer {
  constructor(env, at, fn, args, every) {
    Object.assign(this, { env, at, fn, args, every, seq: env.seq++, live: true, refd: true });
  }
  ref() { this.refd = true; return this; }
  unref() { this.refd = false; return this; }
  hasRef() { return this.refd; }
  refresh() { this.at = this.env.time + (this.every ?? this.delay ?? 0); return this; }
  close() { this.live = false; this.env.timers.delete(this); return this; }
  [Symbol.toPrimitive]() { return this.seq; }
  [Symbol.dispose]() { this.close(); }
}

class Env {
  constructor() {
    this.timers = new Set();
    this.seq = 1;
    this.time = 1_700_000_000_000;
    this.children = [];
    this.procs = new Map();
    this.log = [];
  }
  install() {
    const env = this;
    const add = (fn, ms, args, every) => {
      if (typeof fn !== "function") throw new TypeError("timer callback");
      let d = Number(ms);
      if (!(d >= 1)) d = 1;
      if (d > 2147483647) d = 1;
      const t = new VTimer(env, env.time + d, fn, args, every ? d : undefined);
      t.delay = d;
      env.timers.add(t);
      return t;
    };
    const find = (t) => (t instanceof VTimer ? t : [...env.timers].find((x) => x.seq === t));
    const st = (fn, ms, ...a) => add(fn, ms, a, false);
    const si = (fn, ms, ...a) => add(fn, ms, a, true);
    const ct = (t) => { if (t != null) { const x = find(t); if (x) { x.live = false; env.timers.delete(x); } } };
    globalThis.setTimeout = timersMod.setTimeout = st;
    globalThis.setInterval = timersMod.setInterval = si;
    globalThis.clearTimeout = timersMod.clearTimeout = ct;
    globalThis.clearInterval = timersMod.clearInterval = ct;
    timersPromises.setTimeout = (ms, v) => new Promise((r) => st(() => r(v), ms));
    Date.now = () => env.time;
    process.kill = (pid, sig) => env.kill(pid, sig);
    return this;
  }
  uninstall() {
    for (const k of ["setTimeout", "clearTimeout", "setInterval", "clearInterval"]) {
      globalThis[k] = real[k]; timersMod[k] = real[k];
    }
    timersPromises.setTimeout = real.psetTimeout;
    Date.now = real.now;
    process.kill = real.kill;
  }
  kill(pid, sig) {
    const p = Math.abs(pid);
    if (p < PID_BASE) {
      if (sig === 0) return real.kill.call(process, pid, 0);
      this.realKill = (this.realKill || 0) + 1; // never signal a real process
      return true;
    }
    const c = this.procs.get(p);
    if (pid < 0 || c == null || c.dead) {
      const e = new Error("kill ESRCH"); e.code = "ESRCH"; throw e;
    }
    if (sig === 0) return true;
    c.onSignal(sig === undefined ? "SIGTERM" : sig);
    return true;
  }
  nextTimer() {
    let best;
    for (const t of this.timers) if (best == null || t.at < best.at || (t.at === best.at && t.seq < best.seq)) best = t;
    return best;
  }
  fire(t) {
    if (t.at > this.time) this.time = t.at;
    if (t.every != null) { t.at = this.time + t.every; t.seq = this.seq++; } else { this.timers.delete(t); t.live = false; }
    t.fn(...t.args);
  }
  // Let every microtask (and nextTick) run to quiescence.
  // run everything that is ready; real file-system requests (none in most code) are
  // waited for, so that virtual time never overtakes them however loaded the host is
  drain() {
    return new Promise((r) => real.setImmediate(() => {
      if (!fsBusy()) return r();
      const t0 = real.now.call(Date);
      const again = () => (fsBusy() && real.now.call(Date) - t0 < 60_000 ? real.setTimeout.call(globalThis, again, 1) : real.setImmediate(r));
      again();
    }));
  }
  // Run timers until `done()` or the horizon; returns true if done.
  async pump(done, horizonMs = 300_000) {
    const limit = this.time + horizonMs;
    for (;;) {
      await this.drain();
      if (done()) return true;
      const t = this.nextTimer();
      if (t == null || t.at > limit) return false;
      // fire everything due at the same instant, with a drain between
      this.fire(t);
    }
  }
  dispose() {
    for (const c of this.children) c.dead = true;
    this.timers.clear();
    this.uninstall();
  }
}

class FakeStream extends EventEmitter {
  constructor() { super(); this.destroyed = false; this.writable = true; }
  destroy() { this.destroyed = true; this.writable = false; return this; }
  unref() { return this; }
  ref() { return this; }
  setEncoding(e) { this.encoding = e; const { StringDecoder } = require("node:string_decoder"); this.dec = new StringDecoder(e); return this; }
  push(buf) {
    if (this.destroyed) return;
    if (this.dec) { const s = this.dec.write(buf); if (s.length) this.emit("data", s); } else this.emit("data", buf);
  }
}

// handler: (child, args, rawLines, n) -> void ; may call child.out/child.err/child.exit
class FakeChild extends EventEmitter {
  constructor(env, behaviour) {
    super();
    this.env = env;
    this.id = env.children.length;
    this.pid = PID_BASE + env.nextPid();
    this.behaviour = behaviour || {};
    this.exitCode = null; this.signalCode = null; this.killed = false; this.connected = false;
    this.dead = false;
    this.signals = [];
    this.commands = [];   // {lines, args}
    this.inbuf = "";
    this.exitCommanded = false;
    this.stdout = new FakeStream();
    this.stderr = new FakeStream();
    const stdin = (this.stdin = new FakeStream());
    stdin.write = (data, a, b) => {
      const cb = typeof a === "function" ? a : b;
      if (stdin.destroyed || this.dead) { if (cb) queueMicrotask(() => cb(Object.assign(new Error("write EPIPE"), { code: "EPIPE" }))); return false; }
      this.receive(Buffer.from(String(data), "utf8").toString("utf8"));
      if (cb) queueMicrotask(() => cb(null));
      return true;
    };
    stdin.end = (data, a, b) => {
      const cb = [data, a, b].find((x) => typeof x === "function");
      if (data != null && typeof data !== "function" && !stdin.destroyed && !this.dead) this.receive(String(data));
      stdin.writable = false;
      this.stdinEnded = true;
      if (cb) queueMicrotask(cb);
      this.behaviour.onStdinEnd?.(this);
      return stdin;
    };
    env.children.push(this);
    env.procs.set(this.pid, this);
  }
  unref() {} ref() {}
  disconnect() { this.connected = false; }
  receive(s) {
    this.rawIn = (this.rawIn || "") + s;
    this.inbuf += s;
    const lines = this.inbuf.split("\n");
    this.inbuf = lines.pop();
    this.cur = this.cur || [];
    for (const l of lines) {
      this.cur.push(l);
      const n = this.cur.length;
      if (/^-execute\d*$/i.test(l)) {
        const c = { lines: this.cur, args: this.cur.slice(0, -1), n: this.commands.length, at: this.env.time };
        this.cur = [];
        this.commands.push(c);
        this.env.onCommand?.(this, c);
        this.behaviour.onCommand?.(this, c);
      } else if (n >= 2 && /^-stay_open$/i.test(this.cur[n - 2]) && /^(false|0)$/i.test(l)) {
        this.cur = [];
        this.exitCommanded = true;
        this.behaviour.onExitCommand?.(this);
      }
    }
  }
  out(s) { if (!this.dead) this.stdout.push(Buffer.isBuffer(s) ? s : Buffer.from(s, "utf8")); }
  err(s) { if (!this.dead) this.stderr.push(Buffer.isBuffer(s) ? s : Buffer.from(s, "utf8")); }
  exit(code = 0, signal = null) {
    if (this.dead) return;
    this.dead = true;
    this.exitCode = signal ? null : code; this.signalCode = signal;
    this.emit("exit", this.exitCode, signal);
    this.emit("close", this.exitCode, signal);
  }
  onSignal(sig) {
    this.signals.push(sig);
    this.killedAt ??= this.env.time;
    this.killed = true;
    if (this.behaviour.onSignal) return this.behaviour.onSignal(this, sig);
    if (sig === "SIGKILL" || !this.behaviour.deaf) this.exit(null, sig);
  }
  kill(sig) { if (this.dead) return false; this.onSignal(sig === undefined ? "SIGTERM" : sig); return true; }
}
Env.prototype.nextPid = function () { this._pid = (this._pid || 0) + 1; return this._pid; };

const READY = "{ready}\n";
const isVersion = (c) => c.args.some((a) => a.toLowerCase() === "-ver");

// A child that answers every command synchronously: respond(cmd, child) -> {out, err}
function autoChild(env, respond) {
  return new FakeChild(env, {
    onCommand(ch, c) {
      if (c.args.length === 1 && isVersion(c) && ch.behaviour.versionOverride == null) return void queueMicrotask(() => ch.out("13.59\n" + READY));
      queueMicrotask(() => {
        const r = respond(c, ch) || {};
        if (r.err != null && r.err !== "") ch.err(r.err);
        ch.out((r.out ?? "") + READY);
      });
    },
    onExitCommand(ch) { queueMicrotask(() => ch.exit(0)); },
  });
}

const quietLogger = () => ({ trace() {}, debug() {}, info() {}, warn() {}, error() {} });

module.exports = { Env, FakeChild, FakeStream, autoChild, READY, isVersion, real, quietLogger, PID_BASE };
