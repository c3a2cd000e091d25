"use strict";
const cp = require("node:child_process"), fs = require("node:fs"), os = require("node:os"), path = require("node:path");
const lib = require(path.join(process.cwd(), "dist", "ExifTool.js"));
const dir = fs.mkdtempSync(path.join(os.tmpdir(), "demo-"));
process.on("exit", () => fs.rmSync(dir, { recursive: true, force: true }));
// an instance whose children run `scenario` (absolute path of a module)
function fake(scenario, opts = {}) {
  const log = path.join(dir, "cmds" + Math.random().toString(36).slice(2));
  fs.writeFileSync(log, "");
  const et = new lib.ExifTool({ checkPerl: false, maxProcs: 1, ...opts,
    processFactory: async () => cp.spawn(process.execPath, [path.join(__dirname, "fakechild.js"), scenario], { stdio: "pipe", env: { PATH: process.env.PATH, CMDLOG: log } }) });
  return { et, commands: () => fs.readFileSync(log, "utf8").split("\n").filter(Boolean).map((l) => JSON.parse(l)).filter((a) => !(a.length === 1 && a[0] === "-ver")) };
}
async function main(f) {
  const t = setTimeout(() => { console.error("demo timed out"); process.exit(3); }, 120000);
  try { await f(); clearTimeout(t); console.log("ok"); process.exit(0); } catch (e) { console.error(e); process.exit(1); }
}
module.exports = { lib, dir, fake, main };
