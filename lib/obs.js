"use strict";
// Canonical text of any value: class names, own fields, renderings, key order ignored.
function obs(v, seen = new Set()) {
  if (v === undefined) return "undef";
  if (v === null) return "null";
  if (typeof v === "string") return JSON.stringify(v);
  if (typeof v === "number") return Object.is(v, -0) ? "0" : String(v);
  if (typeof v === "function") return "fn";
  if (typeof v !== "object") return typeof v + ":" + String(v);
  if (seen.has(v)) return "cycle";
  seen.add(v);
  try {
    if (v instanceof Error) return "Error(" + v.message + ")";
    if (v instanceof Uint8Array) return (Buffer.isBuffer(v) ? "Buffer" : "Bytes") + "(" + Buffer.from(v).toString("hex") + ")";
    if (Array.isArray(v)) return "[" + v.map((x) => obs(x, seen)).join(",") + "]";
    const n = v.constructor && v.constructor !== Object ? v.constructor.name : "";
    const fields = Object.keys(v).sort().map((k) => JSON.stringify(k) + ":" + obs(v[k], seen));
    if (n && typeof v.toISOString === "function") { let t; try { t = v.toISOString(); } catch (e) { t = "!" + e.message; } fields.push("iso:" + t); }
    return n + "{" + fields.join(",") + "}";
  } finally { seen.delete(v); }
}
const settled = (r) => (r.status === "fulfilled" ? "ok " + obs(r.value) : r.status + " " + (r.reason && r.reason.message));
function deepFreeze(o) {
  if (o !== null && typeof o === "object" && !Object.isFrozen(o)) { Object.freeze(o); for (const k of Reflect.ownKeys(o)) deepFreeze(o[k]); }
  return o;
}
module.exports = { obs, settled, deepFreeze };
