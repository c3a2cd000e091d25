"use strict";
// stand-in for `exiftool -stay_open True -@ -`; argv[2] = scenario module: (args, n, write) => {out, err, exit, stall}
const fs = require("node:fs");
const scenario = require(process.argv[2]);
let buf = "", cur = [], n = 0;
process.stdin.setEncoding("utf8");
process.stdin.on("data", (d) => {
  buf += d;
  const lines = buf.split("\n");
  buf = lines.pop();
  for (const l of lines) {
    if (l === "-execute") {
      const args = cur; cur = [];
      if (process.env.CMDLOG) fs.appendFileSync(process.env.CMDLOG, JSON.stringify(args) + "\n");
      if (args.length === 1 && args[0] === "-ver") { process.stdout.write("13.59\n{ready}\n"); continue; }
      const r = scenario(args, n++) || {};
      if (r.exit != null) process.exit(r.exit);
      if (r.stall) continue;
      if (r.err) fs.writeSync(2, r.err);
      setTimeout(() => process.stdout.write((r.out ?? "") + "{ready}\n"), r.delay ?? 5);
    } else if (cur.at(-1) === "-stay_open" && l === "False") process.exit(0);
    else cur.push(l);
  }
});
process.stdin.on("end", () => process.exit(0));
