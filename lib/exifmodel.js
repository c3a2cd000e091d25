"use strict";
// Model of how ExifTool turns a write command's arguments into metadata values:
// argument-file filtering, -E character references, -sep list splitting and the
// serialised structure syntax (exiftool script; Writer.pl Sanitize/ConvInv;
// XMPStruct.pl InflateStruct/CheckStruct). Kept bound to the program by replaying
// explored commands against the vendored exiftool (see C07, C08).
const fs = require("node:fs");
const path = require("node:path");
const { filterLine } = require("./argmodel.js");
const { REPO } = require("./build.js");

let table;
function entities() {
  if (table) return table;
  table = new Map();
  try {
    const t = fs.readFileSync(path.join(REPO, "node_modules/exiftool-vendored.pl/bin/lib/Image/ExifTool/HTML.pm"), "utf8");
    const b = /%entityNum = \(([\s\S]*?)\n\);/.exec(t)[1];
    for (const m of b.matchAll(/'?(\w+)'?\s*=>\s*(\d+|0x[0-9a-f]+)/gi)) table.set(m[1], Number(m[2]));
  } catch { /* fall through */ }
  if (table.size < 200) for (const [k, v] of [["amp", 38], ["lt", 60], ["gt", 62], ["quot", 34], ["nbsp", 160], ["eacute", 233]]) table.set(k, v);
  return table;
}
function unescape(s) {
  return s.replace(/&(#?[A-Za-z0-9_]+);/g, (m, c) => {
    let v = entities().get(c);
    if (v === undefined) {
      let x;
      if ((x = /^#x([0-9a-fA-F]+)$/.exec(c))) v = parseInt(x[1], 16);
      else if ((x = /^#(\d+)$/.exec(c))) v = parseInt(x[1], 10);
      else return m;
    }
    try { return String.fromCodePoint(v); } catch { return m; }
  });
}
// InflateStruct; perl's \s on byte strings is [ \t\n\r\f\v]
const WS = /^[ \t\n\r\f\v]*/;
function inflate(o, delim) {
  let m;
  if ((m = /^[ \t\n\r\f\v]*\{/.exec(o.s))) {
    o.s = o.s.slice(m[0].length);
    const st = {};
    for (;;) {
      m = /^[ \t\n\r\f\v]*([-\w:.]+#?)[ \t\n\r\f\v]*=/.exec(o.s);
      if (!m) break;
      o.s = o.s.slice(m[0].length);
      st[m[1]] = inflate(o, "}");
      m = /^[ \t\n\r\f\v]*,/.exec(o.s);
      if (!m) break;
      o.s = o.s.slice(m[0].length);
    }
    m = /^[ \t\n\r\f\v]*\}/.exec(o.s);
    if (m) o.s = o.s.slice(m[0].length); else o.warn = true;
    return st;
  }
  if ((m = /^[ \t\n\r\f\v]*\[/.exec(o.s))) {
    o.s = o.s.slice(m[0].length);
    const l = [];
    for (;;) {
      l.push(inflate(o, "]"));
      m = /^[ \t\n\r\f\v]*,/.exec(o.s);
      if (!m) break;
      o.s = o.s.slice(m[0].length);
    }
    m = /^[ \t\n\r\f\v]*\]/.exec(o.s);
    if (m) o.s = o.s.slice(m[0].length); else o.warn = true;
    return l;
  }
  o.s = o.s.replace(WS, "");
  let v = "", i = 0;
  const cp = [...o.s];
  for (; i < cp.length; i++) {
    if (cp[i] === "|") { i++; if (i < cp.length) v += cp[i]; continue; }
    if (cp[i] === "," || cp[i] === delim) break;
    v += cp[i];
  }
  o.s = cp.slice(i).join("");
  return v;
}
const leaves = (v, f) => Array.isArray(v) ? v.map((x) => leaves(x, f)) : v !== null && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, leaves(x, f)])) : f(v);

// Parse a whole command into assignments. Returns {ops:[{tag, op, raw}], sep, E, file, other}
function parseWrite(lines) {
  const r = { ops: [], sep: undefined, E: false, files: [], other: [] };
  const L = lines.map(filterLine).filter((x) => x !== undefined);
  for (let i = 0; i < L.length; i++) {
    const a = L[i];
    let m;
    if (/^-sep(arator)?$/i.test(a)) { r.sep = L[++i]; continue; }
    if (/^-(api|use|charset|execute|o|out|config|tagsfromfile)$/i.test(a)) { if (!/^-execute/i.test(a)) r.other.push([a, L[++i]]); continue; }
    if (a === "-E" || /^-(escapehtml|eh)$/i.test(a)) { r.E = true; continue; }
    if (a.startsWith("-") && (m = /^-([^=<>]*?)([-+]?)(\^?)=([\s\S]*)$/.exec(a))) { r.ops.push({ tag: m[1], op: m[2], raw: m[4] }); continue; }
    if (a.startsWith("-")) { r.other.push([a]); continue; }
    r.files.push(a);
  }
  return r;
}
// Decoded value of an assignment for a tag of the given kind: "scalar" | "list" | "struct"
function decode(cmd, raw, kind) {
  const un = (s) => (cmd.E ? unescape(s) : s);
  if (raw === "") return { v: undefined };
  const s = un(raw);
  if (kind === "scalar") return { v: s };
  if (kind === "list") {
    const l = cmd.sep === undefined ? [s] : s.split(cmd.sep);
    return { v: l };
  }
  const o = { s };
  const v = inflate(o);
  return { v: leaves(v, un), warn: o.warn || o.s !== "" };
}
module.exports = { unescape, parseWrite, decode, inflate, entities };
