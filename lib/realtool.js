"use strict";
// The vendored exiftool itself, for conformance replays (scratch files only).
const { spawn } = require("node:child_process");
const fs = require("node:fs");
const os = require("node:os");
const path = require("node:path");
const { REPO } = require("./build.js");
const BIN = path.join(REPO, "node_modules/exiftool-vendored.pl/bin/exiftool");
class Real {
  static available() { return fs.existsSync(BIN) && (process.env.PATH || "").split(":").some((d) => fs.existsSync(path.join(d, "perl"))); }
  constructor() {
    this.dir = fs.mkdtempSync(path.join(os.tmpdir(), "etv-verif-real-"));
    this.p = spawn("perl", [BIN, "-stay_open", "True", "-@", "-"], { cwd: this.dir, stdio: ["pipe", "pipe", "pipe"], env: { ...process.env, LANG: "C", HOME: this.dir } });
    this.o = ""; this.e = ""; this.n = 0;
    this.p.stdout.setEncoding("utf8").on("data", (d) => { this.o += d; this.poke(); });
    this.p.stderr.setEncoding("utf8").on("data", (d) => { this.e += d; this.poke(); });
    this.p.on("exit", () => { this.dead = true; this.poke(); });
    this.p.stdin.on("error", () => {});
  }
  poke() { this.wake?.(); }
  // args: lines of one command, without -execute
  async exec(args) {
    const n = ++this.n;
    this.o = ""; this.e = "";
    this.p.stdin.write([...args, "-echo4", `{done${n}}`, `-execute${n}`].join("\n") + "\n");
    const t0 = process.hrtime.bigint();
    for (;;) {
      const i = this.o.indexOf(`{ready${n}}`), j = this.e.indexOf(`{done${n}}`);
      if (i >= 0 && j >= 0) return { out: this.o.slice(0, i), err: this.e.slice(0, j) };
      if (this.dead) throw new Error("exiftool died: " + this.e);
      if (process.hrtime.bigint() - t0 > 60_000_000_000n) throw new Error("exiftool stalled on " + JSON.stringify(args));
      await new Promise((r) => { this.wake = r; });
    }
  }
  async json(file, extra = []) { const r = await this.exec(["-j", "-struct", "-G1", ...extra, file]); return { ...r, v: r.out.trim() ? JSON.parse(r.out)[0] : undefined }; }
  path(n) { return path.join(this.dir, n); }
  close() { try { this.p.kill("SIGKILL"); } catch { /* gone */ } fs.rmSync(this.dir, { recursive: true, force: true }); }
}
// smallest JPEG ExifTool will read and write
const JPEG = Buffer.from("ffd8ffe000104a46494600010100000100010000ffdb004300" + "10".repeat(64) + "ffc0000b080001000101011100ffc40014000100000000000000000000000000000009ffc40014100100000000000000000000000000000000ffda0008010100003f0054dfffd9", "hex");
module.exports = { Real, BIN, JPEG };
