"use strict";
const path = require("node:path");
const { Ctx } = require("./ctx.js");
process.setMaxListeners(0);
let finished = false;
function fail(kind, e) {
  if (finished) return;
  finished = true;
  process.send({ kind, error: String((e && e.stack) || e) }, () => process.exit(3));
}
process.on("uncaughtException", (e) => fail("crash", e));
process.on("unhandledRejection", (e) => fail("crash", e));
process.on("message", async (m) => {
  try {
    const check = require(path.join(__dirname, "..", "checks", m.id + ".js"));
    const ctx = new Ctx(m);
    ctx.replay = m.replay;
    await check.run(m.shard, ctx);
    if (finished) return;
    finished = true;
    process.send({ kind: "done", result: ctx.result() }, () => process.exit(0));
  } catch (e) {
    fail("crash", e);
  }
});
