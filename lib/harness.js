"use strict";
// Bulk evaluation of calls against an auto-answering fake exiftool in virtual time.
const { Env, autoChild, FakeChild, READY, quietLogger, isVersion } = require("./env.js");

const BASE = { checkPerl: false, logger: quietLogger, minDelayBetweenSpawnMillis: 0, healthCheckIntervalMillis: 0, healthCheckCommand: "", maxTasksPerProcess: 1e9, taskRetries: 0 };

class Bench {
  // respond(cmd, child) -> {out, err}
  constructor(M, respond, opts = {}, childFactory) {
    this.M = M;
    this.env = new Env().install();
    this.respond = respond;
    this.sent = 0; this.log = [];
    this.env.onCommand = (ch, x) => { if (!(x.n === 0 && isVersion(x))) { this.sent++; this.log.push(x); } };
    this.et = this.instance(opts, childFactory);
  }
  instance(opts = {}, childFactory) {
    return new this.M.ExifTool({
      ...BASE, maxProcs: 16, ...opts,
      processFactory: async () => childFactory ? childFactory(this.env) : autoChild(this.env, (c, ch) => this.respond(c, ch)),
    });
  }
  // run thunks concurrently; returns settled records
  async all(thunks, horizonMs = 600_000) {
    const res = Array(thunks.length);
    let n = 0;
    thunks.forEach((f, i) => {
      let p;
      try { p = f(); } catch (e) { res[i] = { threw: true, status: "rejected", reason: e }; n++; return; }
      Promise.resolve(p).then((value) => { res[i] = { status: "fulfilled", value }; n++; }, (reason) => { res[i] = { status: "rejected", reason }; n++; });
    });
    await this.env.pump(() => n === thunks.length, horizonMs);
    for (let i = 0; i < res.length; i++) res[i] ??= { status: "pending" };
    return res;
  }
  async one(f, h) { return (await this.all([f], h))[0]; }
  commands() { return this.env.children.flatMap((c) => c.commands.filter((x) => !(x.n === 0 && isVersion(x)))); }
  close() { this.env.dispose(); process.removeAllListeners("beforeExit"); process.removeAllListeners("exit"); }
}

function* chunks(iter, size) {
  let b = [];
  for (const x of iter) { b.push(x); if (b.length >= size) { yield b; b = []; } }
  if (b.length) yield b;
}
// all strings of up to n tokens
function* words(alphabet, max, min = 0) {
  const rec = function* (n) { if (n === 0) { yield []; return; } for (const w of rec(n - 1)) for (const a of alphabet) yield [...w, a]; };
  for (let n = min; n <= max; n++) for (const w of rec(n)) yield w.join("");
}
function* seqs(alphabet, max, min = 0) {
  const rec = function* (n) { if (n === 0) { yield []; return; } for (const w of rec(n - 1)) for (const a of alphabet) yield [...w, a]; };
  for (let n = min; n <= max; n++) yield* rec(n);
}
function* product(domains) {
  const keys = Object.keys(domains);
  const rec = function* (i, acc) { if (i === keys.length) { yield { ...acc }; return; } for (const v of domains[keys[i]]) { acc[keys[i]] = v; yield* rec(i + 1, acc); } };
  yield* rec(0, {});
}
const show = (x) => JSON.stringify(x, (k, v) => (typeof v === "bigint" ? String(v) : v === undefined ? "__undef" : v instanceof Error ? "Error(" + v.message + ")" : Object.is(v, -0) ? "-0" : typeof v === "number" && !Number.isFinite(v) ? String(v) : v));

module.exports = { Bench, BASE, chunks, words, seqs, product, show };
