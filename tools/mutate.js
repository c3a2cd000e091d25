#!/usr/bin/env node
"use strict";
// Development tool (no check uses it): mechanical mutants of the library, each run against
// the checks that claim the mutated file.  node tools/mutate.js OUT.jsonl [file.ts ...]
const fs = require("node:fs"), path = require("node:path"), cp = require("node:child_process");
const REPO = "/repo", W = process.env.MUT_DIR || "/tmp/mu", MAX = Number(process.env.MUT_MAX || 40);
const ts = require(REPO + "/node_modules/typescript");
const MAP = {
  "AsyncRetry.ts": "C03 C02", "ExifTool.ts": "C06 C22 C05 C21 C18 C03 C04 C02", "ReadTask.ts": "C01 C17 C06 C11 C10 C14", "ReadRawTask.ts": "C01 C05 C10",
  "WriteTask.ts": "C22 C08 C09 C07", "TagEdit.ts": "C08 C05", "TagNameValidation.ts": "C08 C05 C07", "CoordinateParser.ts": "C17", "GPS.ts": "C17 C10",
  "Timezones.ts": "C15 C14 C12", "ExifDateTime.ts": "C20 C13 C12 C10", "ExifDate.ts": "C13 C20 C12 C10", "ExifTime.ts": "C13 C20 C12 C10", "DateTime.ts": "C20 C13 C12 C10 C07",
  "TimeParsing.ts": "C20 C12 C10", "TagDescriptions.ts": "C19", "ListXTask.ts": "C19", "Settings.ts": "C16 C15", "Utf8JsonFilter.ts": "C11 C01", "InvalidUtf8Bytes.ts": "C11 C13 C10",
  "BinaryToBufferTask.ts": "C18 C05 C01", "BinaryExtractionTask.ts": "C18 C05 C01", "RewriteAllTagsTask.ts": "C18 C05 C01", "ErrorsAndWarnings.ts": "C09 C01 C18 C10",
  "IsWarning.ts": "C09 C18 C01", "JSON.ts": "C13", "BinaryField.ts": "C13 C10", "ExifToolOptions.ts": "C21 C22 C06", "Object.ts": "C13 C22 C06 C10 C07", "Array.ts": "C13 C07 C10 C14", "String.ts": "C05 C12 C10 C07", "Number.ts": "C17 C10 C07",
  "Boolean.ts": "C10 C22", "ExifToolTask.ts": "C01 C18 C09", "VersionTask.ts": "C01 C02", "Version.ts": "C19", "Lazy.ts": "C19 C21", "Pick.ts": "C06 C22", "Struct.ts": "C07", "File.ts": "C18 C21", "FilenameCharsetArgs.ts": "C05", "DefaultExifToolOptions.ts": "C22 C21 C06", "FirstDateTime.ts": "C14", "DefaultMaxProcs.ts": "C21", "Maybe.ts": "C10",
};
const src = (f) => path.join(REPO, "src", f);
function mutants(file) {
  const text = fs.readFileSync(src(file), "utf8"), sf = ts.createSourceFile(file, text, ts.ScriptTarget.ES2022, true), out = [];
  const rep = (node, s, what) => out.push({ file, pos: node.getStart(), end: node.getEnd(), s, what, line: sf.getLineAndCharacterOfPosition(node.getStart()).line + 1 });
  const SW = { "===": ["!=="], "!==": ["==="], "==": ["!="], "!=": ["=="], "<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "&&": ["||"], "||": ["&&"], "??": ["||"], "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "??=": ["="] };
  (function walk(n) {
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n)) return;
    if (ts.isBinaryExpression(n)) for (const s of SW[n.operatorToken.getText()] || []) rep(n.operatorToken, s, n.operatorToken.getText() + " -> " + s);
    if (ts.isPrefixUnaryExpression(n) && n.operator === ts.SyntaxKind.ExclamationToken) rep(n, n.operand.getText(), "drop !");
    if (ts.isPrefixUnaryExpression(n) && n.operator === ts.SyntaxKind.MinusToken) rep(n, "(" + n.operand.getText() + ")", "drop -");
    if (ts.isNumericLiteral(n)) { rep(n, String(Number(n.text) + 1), "+1"); if (Number(n.text) > 0) rep(n, String(Number(n.text) - 1), "-1"); }
    if (ts.isIfStatement(n)) { rep(n.expression, "(false as boolean) && (" + n.expression.getText() + ")", "if false"); }
    if (ts.isConditionalExpression(n)) { rep(n, n.whenTrue.getText(), "?: true"); rep(n, n.whenFalse.getText(), "?: false"); }
    if (ts.isExpressionStatement(n) && (ts.isCallExpression(n.expression) || ts.isAwaitExpression(n.expression) || ts.isBinaryExpression(n.expression) || ts.isDeleteExpression(n.expression)) && !n.getText().startsWith("super")) rep(n, ";", "delete statement");
    if (n.kind === ts.SyntaxKind.TrueKeyword) rep(n, "false", "true -> false");
    if (n.kind === ts.SyntaxKind.FalseKeyword) rep(n, "true", "false -> true");
    if (ts.isRegularExpressionLiteral(n)) {
      const t = n.getText(), body = t.slice(1, t.lastIndexOf("/")), fl = t.slice(t.lastIndexOf("/") + 1), mk = (b, f, w) => { try { new RegExp(b, f); rep(n, `/${b}/${f}`, w); } catch {} };
      if (body.startsWith("^")) mk(body.slice(1), fl, "drop ^"); if (/[^\\]\$$/.test(body)) mk(body.slice(0, -1), fl, "drop $");
      for (const x of fl) mk(body, fl.replace(x, ""), "drop flag " + x);
      for (const m of body.matchAll(/(?<!\\)([+*?])(?!\?)/g)) { if (body[m.index - 1] === "(") continue; const c = { "+": "*", "*": "+", "?": "" }[m[0]]; mk(body.slice(0, m.index) + c + body.slice(m.index + 1), fl, `regex ${m[0]} at ${m.index}`); }
      for (const m of body.matchAll(/\{(\d+)(,?)(\d*)\}/g)) { mk(body.slice(0, m.index) + `{${+m[1] + 1}${m[2]}${m[3] && Math.max(+m[1] + 1, +m[3])}}` + body.slice(m.index + m[0].length), fl, "regex {}"); }
    }
    if (ts.isStringLiteral(n) && n.text && !ts.isImportDeclaration(n.parent) && !ts.isLiteralTypeNode(n.parent) && n.text.length < 40) rep(n, JSON.stringify(n.text + "x"), "string");
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ["trim", "toLowerCase", "toUpperCase"].includes(n.expression.name.text)) rep(n, n.expression.expression.getText(), "drop ." + n.expression.name.text);
    if (ts.isSpreadElement(n) && ts.isArrayLiteralExpression(n.parent)) rep(n, "...[]", "drop spread");
    ts.forEachChild(n, walk);
  })(sf);
  return out;
}
// type check one mutated file with a language service
const cfg = ts.parseJsonConfigFileContent(ts.parseConfigFileTextToJson("tsconfig.json", fs.readFileSync(REPO + "/tsconfig.json", "utf8")).config, ts.sys, REPO);
const over = new Map();
const svc = ts.createLanguageService({ getScriptFileNames: () => cfg.fileNames.filter((f) => !f.endsWith(".spec.ts") && !f.includes("/update/")), getScriptVersion: (f) => String(over.get(f)?.v ?? 0), getScriptSnapshot: (f) => over.has(f) && over.get(f).t ? ts.ScriptSnapshot.fromString(over.get(f).t) : fs.existsSync(f) ? ts.ScriptSnapshot.fromString(fs.readFileSync(f, "utf8")) : undefined, getCurrentDirectory: () => REPO, getCompilationSettings: () => cfg.options, getDefaultLibFileName: (o) => ts.getDefaultLibFilePath(o), fileExists: ts.sys.fileExists, readFile: ts.sys.readFile, readDirectory: ts.sys.readDirectory });
let ver = 0;
const compiles = (file, text) => { over.set(src(file), { v: ++ver, t: text }); const d = svc.getSemanticDiagnostics(src(file)); over.set(src(file), { v: ++ver, t: undefined }); return d.length === 0; };

const [OUT, ...files] = process.argv.slice(2);
fs.mkdirSync(W, { recursive: true });
fs.rmSync(W + "/src", { recursive: true, force: true });
cp.execSync(`cp -a ${REPO}/src ${W}/src`);
for (const n of ["node_modules", "package.json", "data", "tsconfig.json"]) if (!fs.existsSync(`${W}/${n}`) && fs.existsSync(`${REPO}/${n}`)) fs.symlinkSync(`${REPO}/${n}`, `${W}/${n}`);
const done = new Set(fs.existsSync(OUT) ? fs.readFileSync(OUT, "utf8").split("\n").filter(Boolean).map((l) => JSON.parse(l).key) : []);
for (const f of files.length ? files : Object.keys(MAP)) {
  const text = fs.readFileSync(src(f), "utf8");
  let ms = mutants(f);
  const step = Math.max(1, ms.length / MAX);
  ms = ms.filter((_, i) => Math.floor(i / step) !== Math.floor((i - 1) / step));
  for (const m of ms) {
    const key = `${f}:${m.pos}:${m.what}`;
    if (done.has(key)) continue;
    const t = text.slice(0, m.pos) + m.s + text.slice(m.end);
    if (!compiles(f, t)) continue;
    fs.writeFileSync(`${W}/src/${f}`, t);
    let by = "", t0 = Date.now();
    for (const c of MAP[f].split(" ")) {
      const r = cp.spawnSync("node", ["/verif/run.js", c, "--timeout", "300"], { env: { ...process.env, VERIF_REPO: W, VERIF_EVIDENCE: W + "/ev", VERIF_FAILFAST: "1" }, encoding: "utf8" });
      if (r.status === 1) { by = c; break; }
      if (r.status !== 0) { by = c + "?" + r.status; break; }
    }
    fs.writeFileSync(`${W}/src/${f}`, text);
    const lineText = text.split("\n")[m.line - 1].trim();
    fs.appendFileSync(OUT, JSON.stringify({ key, by, file: f, line: m.line, what: m.what, text: lineText, s: (Date.now() - t0) / 1000 | 0 }) + "\n");
    if (!by) console.log("SURVIVED", f, m.line, m.what, "|", lineText);
  }
}
