"use strict";
const { load } = require("../lib/load.js");
const { explore, Run } = require("../lib/explore.js");
const { KINDS } = require("../lib/answers.js");
const { pool } = require("../lib/pool.js");
const { show, seqs } = require("../lib/harness.js");
const A = "/s/a.jpg", B = "/s/b.jpg", C = "/s/c.jpg";
const ALL = Object.keys(KINDS);
const OUT = ["ok", "err", "crash", "stall", "junk", "late"];

// answers of successive attempts
function script(kind, seq) {
  return seq.map((o, i) => {
    const full = KINDS[kind].out(A);
    switch (o) {
      case "ok": return { out: full };
      case "err": return { err: `Error: bad attempt ${i + 1} - ${A}\n`, out: "" };
      case "crash": return { crash: true };
      case "late": return { out: full.slice(0, full.length >> 1), crash: true }; // dies half way through its answer
      case "stall": return { stall: true };
      case "junk": return { out: `junk ${i + 1}\n` };
    }
  });
}
function judge(d, x, bad, seqOf) {
  for (const op of x.ops) {
    if (!op.kind) continue;
    if (op.settles !== 1) { bad("unsettled:" + op.name, `${op.name} settled ${op.settles} times`); continue; }
    const K = KINDS[op.kind], sent = x.sent.filter((s) => s.file === op.file);
    const max = K.retriable ? 1 + (d.retries ?? 0) : 1;
    if (sent.length > max) bad("resent:" + op.name, `${op.name} was sent ${sent.length} times (at most ${max} allowed)`);
    if (op.state === "ok" && sent.length === 0) bad("unsent:" + op.name, `${op.name} resolved without being sent`);
    const seq = seqOf?.(op);
    if (seq) {
      const used = seq.slice(0, sent.length);
      const firstOk = seq.indexOf("ok");
      if (firstOk >= 0 && sent.length > firstOk + 1) bad("afterok:" + op.name, `${op.name} was sent again after attempt ${firstOk + 1} had succeeded`);
      if (used.at(-1) === "ok" && (op.state !== "ok" || !K.ok(op.file, op.value))) bad("notfirst:" + op.name, `${op.name}: attempt ${used.length} succeeded but the call gave ${op.state} ${show(op.value ?? op.error)}`);
      if (op.state === "err" && used.at(-1) === "err" && op.kind !== "version" && !String(op.error.message).includes("attempt " + used.length)) bad("notlast:" + op.name, `${op.name} rejected with ${op.error} instead of the failure of attempt ${used.length}`);
      // a child failure with budget left is always retried
      if (K.retriable && ["crash", "stall", "late"].includes(used.at(-1)) && sent.length < max) bad("gaveup:" + op.name, `${op.name} gave up after attempt ${used.length} (${used}) with retries left`);
      if (op.state === "ok" && ["crash", "stall", "late"].includes(used.at(-1))) bad("ghost:" + op.name, `${op.name} resolved although its last attempt got no answer`);
    }
  }
}
const SC = {};
for (const k of ALL) for (const r of [0, 1, 2]) SC[`pair-${k}-r${r}`] = { maxProcs: 2, retries: r, ops: [[k, A], ["write", B]], faults: { crash: 3, stall: 2, garbage: 1, eof: 1, perr: 1 }, cut: true };
SC["writes-1p"] = { maxProcs: 1, retries: 3, ops: [["write", A], ["edit", B], ["del", C]], faults: { crash: 3, stall: 2, garbage: 1, eof: 1, perr: 1 } };
SC["writes-2p-recycle"] = { maxProcs: 2, retries: 3, maxTasks: 1, ops: [["write", A], ["edit", B], ["del", C]], faults: { crash: 3, stall: 1 } };
for (const e of ["close", "closeForce", "graceful", "force"]) SC["writes-" + e] = { maxProcs: 2, retries: 2, ops: [["write", A], ["edit", B], ["read", C]], ends: [e], faults: { crash: 2, stall: 1 } };

// every way of asking for a change: tags, edits, extra arguments and options never make it retriable
const WARGS = [undefined, [], ["-P"], ["-overwrite_original"], ["-overwrite_original_in_place"], ["-n"], ["-all="], ["-m"], ["-AllDates+=1"], ["-overwrite_original", "-P"]];
const WTAGS = [{ Title: "x" }, {}, { Title: null }, { Rating: 3 }, { "Keywords+": "a" }, { "AllDates+": "0:0:0 1:0:0" }, { GPSLatitude: 1, GPSLongitude: 2 }, { Keywords: ["a", "b"] }, { Orientation: 1 }, { "Orientation#": 6 }, { RegionInfo: { A: 1 } }];
const WOPTS = [{}, { struct: 0 }, { useMWG: false }, { ignoreMinorErrors: false }, { ignoreMinorErrors: true, struct: 2 }];
const WEDITS = [[{ tag: "XMP-dc:Subject", operation: "add", value: "a" }], [{ tag: "XMP-dc:Subject", operation: "remove", value: "a" }], [{ tag: "XMP-mwg-coll:Collections", operation: "remove", predicate: { CollectionName: "a" } }], [{ tag: "XMP-dc:Subject", operation: "remove", value: "a" }, { tag: "IPTC:Keywords", operation: "add", value: "a" }]];
function* opts() { for (const w of WARGS) for (const o of WOPTS) yield w === undefined ? o : { ...o, writeArgs: w }; }
const FORMS = {
  *write() { for (const t of WTAGS) { yield [show(t), (et) => et.write(A, t)]; for (const o of opts()) yield [show([t, o]), (et) => et.write(A, t, o)]; } },
  *writeArr() { for (const t of WTAGS) for (const w of WARGS) if (w) for (const o of [undefined, ...WOPTS]) yield [show([t, w, o]), (et) => et.write(A, t, w, o)]; },
  *edit() { for (const e of WEDITS) for (const o of [undefined, ...opts()]) yield [show([e, o]), (et) => et.editTags(A, e, o)]; },
  *del() { for (const retain of [undefined, [], ["Title"], ["Orientation", "ICC_Profile"]]) for (const o of [undefined, ...WOPTS]) yield [show([retain, o]), (et) => et.deleteAllTags(A, retain || o ? { ...o, ...(retain ? { retain } : {}) } : undefined)]; },
};

// custom tasks: every outcome sequence with the retriable flag given or left out
async function custom(M, ctx) {
  for (const flag of [undefined, true, false]) for (let r = 0; r <= (ctx.quick ? 2 : 3); r++) for (const seq of seqs(OUT, r + 2, r + 2)) {
    const d = { retries: r, ops: [["read", A, { answers: script("read", seq) }]], maxProcs: 1, horizonMs: 60_000, maxSteps: 1000 };
    class Custom extends M.ExifToolTask {
      parse(out, err) { if (err) throw err; if (!out.includes("SourceFile")) throw new Error("unusable " + out); return out; }
    }
    const sc = pool("custom", d)();
    let made = 0;
    const make = () => { made++; return new Custom(["-json", A]); };
    sc.ops[0].call = flag === undefined ? (et) => et.enqueueTask(make) : (et) => et.enqueueTask(make, flag);
    const x = await new Run(M, sc).execute([]), op = x.ops[0], n = x.sent.filter((s) => s.file === A).length;
    const key = `custom:${flag}:r${r}:${seq}`, ok = seq.indexOf("ok");
    ctx.eval(key); ctx.add("transitions", x.trace.length); ctx.add("traces"); ctx.outcome("custom" + op.state + n);
    const max = flag === false ? 1 : r + 1, want = ok >= 0 && ok < max ? ok + 1 : max;
    const bad = op.settles !== 1 ? `settled ${op.settles} times`
      : n !== want ? `sent ${n} times, expected ${want}`
      : made !== n ? `${made} tasks made for ${n} attempts`
      : (op.state === "ok") !== (seq[n - 1] === "ok") ? `attempt ${n} ended in ${seq[n - 1]} but the call gave ${op.state}`
      : op.state === "ok" && !String(op.value).includes(A) ? `resolved to ${show(op.value)}`
      : op.state === "err" && seq[n - 1] === "err" && !String(op.error.message).includes("attempt " + n) ? `rejected with ${op.error}, not the failure of attempt ${n}`
      : op.state === "err" && seq[n - 1] === "junk" && !String(op.error.message).includes("junk " + n) ? `rejected with ${op.error}, not the failure of attempt ${n}` : undefined;
    if (bad) ctx.violate(key, `custom task (retriable ${flag}, taskRetries ${r}, attempt outcomes ${seq}): ${bad}`, { flag, r, seq });
  }
}
// the exported retry helper: every sequence of outcomes of the function
async function helper(M, ctx) {
  const OC = { val: (v) => v, prom: (v) => Promise.resolve(v), rej: (v, e) => Promise.reject(e), thr: (v, e) => { throw e; }, odd: () => Promise.reject(undefined) };
  for (let r = 0; r <= (ctx.quick ? 3 : 4); r++) for (const seq of seqs(Object.keys(OC), r + 2, r + 2)) for (const value of r < 3 ? [{ v: 1 }, undefined, 0, false, null, ""] : [undefined]) {
    const key = `helper:r${r}:${seq}:${show(value)}`, errs = seq.map((o, i) => new Error("attempt " + (i + 1)));
    let n = 0, busy = 0, overlap = false;
    let got;
    try {
      const p = M.retryOnReject(() => { overlap ||= busy > 0; busy++; const i = n++; try { const x = OC[seq[Math.min(i, seq.length - 1)]](value, errs[i]); if (x && x.then) return x.finally(() => busy--); busy--; return x; } catch (e) { busy--; throw e; } }, r, 0);
      got = await p.then((v) => ({ v, ok: true }), (e) => ({ e, ok: false }));
    } catch (e) { got = { threw: e }; }
    ctx.eval(key); ctx.add("transitions", n); ctx.add("traces"); ctx.outcome("helper" + got.ok + n);
    const at = seq.findIndex((o) => o === "val" || o === "prom"), ok = at >= 0 && at <= r, want = ok ? at + 1 : r + 1;
    const last = seq[want - 1] === "odd" ? undefined : errs[want - 1];
    const bad = got.threw ? `threw ${got.threw} instead of rejecting` : n !== want ? `called ${n} times, expected ${want}` : overlap ? "attempts overlap" : got.ok !== ok ? `${got.ok ? "resolved" : "rejected"}, expected the opposite` : ok ? (got.v !== value ? `resolved to ${show(got.v)}, expected ${show(value)}` : undefined) : got.e !== last ? `rejected with ${got.e}, expected ${last}` : undefined;
    if (bad) ctx.violate(key, `retryOnReject with ${r} retries, outcomes ${seq}: ${bad}`, { r, seq });
  }
}

module.exports = {
  id: "C03", level: "model_checking",
  rule: "distinct = distinct event histories / attempt-outcome sequences executed on the built library",
  bounds: (t) => ({ attemptOutcomes: OUT, taskRetries: "0-3", sequenceLength: "taskRetries + 2 (all sequences)", scheduleDeviations: t === "quick" ? 2 : 3, callForms: "every modifying call x tag/edit kinds x extra arguments x options x attempt failures", faults: "up to 3 crashes, 2 stalls, stream and process errors" }),
  assumptions: ["stand-in children; a command counts as sent when its -execute line reaches a child's stdin"],
  shards(tier) {
    const s = [];
    for (const n of Object.keys(SC)) { const of = tier === "quick" ? 1 : 4; for (let p = 0; p < of; p++) s.push({ kind: "sched", name: n, part: p, of }); }
    for (const k of ALL) s.push({ kind: "seq", k });
    for (const f of Object.keys(FORMS)) s.push({ kind: "form", f });
    s.push({ kind: "custom" }, { kind: "helper" });
    return s;
  },
  async run(shard, ctx) {
    const M = load(ctx.dist);
    if (shard.kind === "custom") return custom(M, ctx);
    if (shard.kind === "helper") return helper(M, ctx);
    if (shard.kind === "sched") {
      const d = SC[shard.name];
      return explore({ M, scenario: pool(shard.name, d), bound: ctx.quick ? 2 : 3, ctx, check: (x, bad) => judge(d, x, bad), part: [shard.part, shard.of] });
    }
    if (shard.kind === "form") {
      for (const [label, call] of FORMS[shard.f]()) for (const r of [1, 3]) for (const inst of ctx.quick ? [{}] : [{}, { writeArgs: ["-P"] }, { struct: 2, useMWG: false }]) for (const o of ["err", "crash", "stall", "junk"]) {
        const d = { retries: r, ops: [["write", A, { answers: script("write", [o]) }]], maxProcs: 1, horizonMs: 60_000, maxSteps: 1000, opts: inst };
        const sc = pool("form", d)();
        sc.ops[0].call = call;
        const x = await new Run(M, sc).execute([]);
        ctx.eval(JSON.stringify([shard.f, label, r, inst, o])); ctx.add("transitions", x.trace.length); ctx.outcome(x.ops[0].state + x.sent.length);
        if (x.sent.length !== 1) ctx.violate(`form:${shard.f}:${label}:${o}`, `${shard.f} ${label} with taskRetries ${r}: sent ${x.sent.length} times when its attempt ended in ${o} (${x.ops[0].state} ${x.ops[0].error ?? ""})`, { label, r, o });
        if (x.ops[0].settles !== 1) ctx.violate(`form:${shard.f}:${label}:unsettled`, "not settled");
      }
      ctx.sample({ form: shard.f });
      return;
    }
    const k = shard.k;
    const rmax = ctx.quick ? 2 : 3;
    for (let r = 0; r <= rmax; r++) for (const seq of seqs(OUT, r + 2, r + 2)) {
      const d = { retries: r, ops: [[k, A, { answers: script(k, seq) }]], maxProcs: 1, horizonMs: 60_000, maxSteps: 1000 };
      const sc = pool("seq", d)();
      if (k === "version") sc.files["-ver"] = { answers: script(k, seq) };
      const x = await new Run(M, sc).execute([]);
      ctx.eval(JSON.stringify([k, r, seq])); ctx.add("transitions", x.trace.length); ctx.outcome(x.ops[0].state + x.sent.length);
      judge(d, x, (key, msg) => ctx.violate(`seq:${k}:r${r}:${seq}:${key}`, msg + `\n${k} with ${r} retries, attempt outcomes ${seq}`, { k, r, seq }), () => seq);
    }
    ctx.sample({ kind: k, taskRetries: rmax });
  },
};
