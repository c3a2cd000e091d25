"use strict";
// Builds the library from /repo's current working tree into a scratch directory
// (never into /repo). Every TypeScript source that is not a spec is transpiled with
// the repository's own compiler and compiler options (type errors are not our
// concern: build.sh decides those); node_modules, package.json and data are linked.
const fs = require("node:fs");
const os = require("node:os");
const path = require("node:path");

const REPO = process.env.VERIF_REPO || "/repo";

function sources(dir, rel = "") {
  const out = [];
  for (const e of fs.readdirSync(path.join(dir, rel), { withFileTypes: true })) {
    const r = path.join(rel, e.name);
    if (e.isDirectory()) {
      if (r === "update") continue; // code generator, not part of the library
      out.push(...sources(dir, r));
    } else if (e.name.endsWith(".ts") && !e.name.endsWith(".spec.ts") && !e.name.endsWith(".d.ts")) {
      out.push(r);
    }
  }
  return out;
}

function build() {
  const ts = require(path.join(REPO, "node_modules/typescript"));
  const root = fs.mkdtempSync(path.join(os.tmpdir(), "etv-verif-"));
  const src = path.join(REPO, "src");
  const dist = path.join(root, "dist");
  const cfg = ts.parseConfigFileTextToJson("tsconfig.json", fs.readFileSync(path.join(REPO, "tsconfig.json"), "utf8"));
  const opts = ts.convertCompilerOptionsFromJson(cfg.config.compilerOptions, REPO).options;
  Object.assign(opts, {
    module: ts.ModuleKind.CommonJS, moduleResolution: ts.ModuleResolutionKind.Node10,
    declaration: false, sourceMap: false, removeComments: true, noEmit: false,
    ignoreDeprecations: undefined,
  });
  const files = sources(src);
  for (const f of files) {
    const text = fs.readFileSync(path.join(src, f), "utf8");
    const r = ts.transpileModule(text, { compilerOptions: opts, fileName: path.join(src, f), reportDiagnostics: true });
    const bad = (r.diagnostics || []).filter((d) => d.category === ts.DiagnosticCategory.Error && d.code < 2000);
    if (bad.length) throw new Error("syntax error in " + f + ": " + ts.flattenDiagnosticMessageText(bad[0].messageText, "\n"));
    const out = path.join(dist, f.replace(/\.ts$/, ".js"));
    fs.mkdirSync(path.dirname(out), { recursive: true });
    fs.writeFileSync(out, r.outputText);
  }
  for (const n of ["node_modules", "package.json", "data"]) {
    const t = path.join(REPO, n);
    if (fs.existsSync(t)) fs.symlinkSync(t, path.join(root, n));
  }
  return { root, dist, files: files.length };
}

function clean(root) {
  if (root && path.basename(root).startsWith("etv-verif-") && path.dirname(root) === os.tmpdir())
    fs.rmSync(root, { recursive: true, force: true });
}

module.exports = { build, clean, REPO };
