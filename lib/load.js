"use strict";
globalThis.__realSetInterval ??= require("node:timers").setInterval;
const path = require("node:path");
// Load the freshly built library (main module) and, on request, a pristine copy of it.
// The module creates a default instance when loaded; its timers belong to a virtual
// clock that never advances, so it stays inert and cannot disturb explored executions.
const { Env } = require("./env.js");
function load(dist) {
  const nested = require("node:timers").setInterval !== globalThis.__realSetInterval;
  if (nested) return require(path.join(dist, "ExifTool.js"));
  const env = new Env().install();
  try { return require(path.join(dist, "ExifTool.js")); }
  finally { env.uninstall(); }
}
function fresh(dist) {
  for (const k of Object.keys(require.cache)) if (k.startsWith(dist + path.sep)) delete require.cache[k];
  return load(dist);
}
module.exports = { load, fresh };
