"use strict";
// Per-shard context handed to a check: counters, violations, samples, outcome classes.
const crypto = require("node:crypto");
class Ctx {
  constructor({ dist, tier, shard, seed }) {
    Object.assign(this, { dist, tier, shard, seed });
    this.counts = {};
    this.violations = [];
    this.samples = [];
    this.seen = new Set();
    this.outcomes = new Map();
    this.findings = new Map();
    this.maxViolations = 20;
  }
  get quick() { return this.tier === "quick"; }
  add(k, n = 1) { this.counts[k] = (this.counts[k] || 0) + n; }
  // one evaluated case; `sig` identifies it (distinct, non-trivial cases are counted)
  eval(sig) { this.add("evaluations"); if (sig !== undefined) this.state(sig); }
  state(sig) {
    const h = sig.length > 40 ? crypto.createHash("md5").update(sig).digest("base64").slice(0, 16) : sig;
    if (this.seen.has(h)) return false;
    this.seen.add(h);
    return true;
  }
  outcome(o) { this.outcomes.set(o, (this.outcomes.get(o) || 0) + 1); }
  sample(s, max = 4) { if (this.samples.length < max) this.samples.push(s); }
  violate(key, msg, detail) {
    if (this.violations.length < this.maxViolations) this.violations.push({ key: String(key), msg: String(msg).slice(0, 2000), detail });
    this.add("violationsSeen");
  }
  // a case that fails in a way known-findings.json may list: reported once per key
  known(key, msg, detail) { if (!this.findings.has(key)) { this.findings.set(key, 1); this.violations.push({ key, msg: String(msg).slice(0, 2000), detail }); } }
  result() {
    return { counts: this.counts, distinct: this.seen.size, outcomes: [...this.outcomes].slice(0, 200), samples: this.samples, violations: this.violations };
  }
}
module.exports = { Ctx };
