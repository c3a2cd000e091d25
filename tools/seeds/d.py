# generated once from reviewed candidates
S.append({'id': 'asar-substring', 'property': 'C23', 'edits': [('ExiftoolPath.ts', '    ?.split(_path.sep)\n    .map((ea) => (ea === "app.asar" ? "app.asar.unpacked" : ea))\n    .join(_path.sep);', '    ?.replace("app.asar", "app.asar.unpacked");')], 'needs': 'an application installed below a directory whose name merely contains app.asar, next to a directory of the unpacked name', 'what': 'another program than the vendored one is chosen', 'demo': '\nfunction tree(vendored) {\n  const root = path.join(dir, \'tree\'), nm = path.join(root, \'node_modules\'), from = path.join(process.cwd(), \'node_modules\');\n  fs.cpSync(path.join(process.cwd(), \'dist\'), path.join(root, \'dist\'), { recursive: true, filter: (f) => !/\\.spec\\./.test(f) });\n  fs.copyFileSync(path.join(process.cwd(), \'package.json\'), path.join(root, \'package.json\'));\n  fs.mkdirSync(nm);\n  for (const n of fs.readdirSync(from)) if (!n.startsWith(\'.\') && !n.startsWith(\'exiftool-vendored\')) fs.symlinkSync(path.join(from, n), path.join(nm, n));\n  if (vendored) { const d = path.join(nm, \'exiftool-vendored.pl\'); fs.mkdirSync(d); fs.writeFileSync(path.join(d, \'package.json\'), \'{"name":"exiftool-vendored.pl","main":"index.js"}\'); fs.writeFileSync(path.join(d, \'index.js\'), \'module.exports = \' + JSON.stringify(vendored)); }\n  return require(path.join(root, \'dist\', \'ExifTool.js\'));\n}\nfunction put(f, mode) { fs.mkdirSync(path.dirname(f), { recursive: true }); fs.writeFileSync(f, \'#!/bin/sh\\n\'); fs.chmodSync(f, mode ?? 0o755); return f; }\nmain(async () => {\n  const x = put(path.join(dir, \'my.app.asar.d\', \'bin\', \'exiftool\'));\n  put(path.join(dir, \'my.app.asar.unpacked.d\', \'bin\', \'exiftool\'));\n  const M = tree(x);\n  assert.equal(await M.exiftoolPath(), x);\n});'})
S.append({'id': 'forge-unchecked', 'property': 'C23', 'edits': [('ExiftoolPath.ts', '    if (_fs.existsSync(forgePath)) {\n      return forgePath;', '    if (_fs.existsSync(electronResourcePath)) {\n      return forgePath;')], 'needs': 'an Electron application whose resources directory does not hold ExifTool, with a global ExifTool installed', 'what': 'a file that does not exist is launched instead of the installed program', 'demo': '\nfunction tree(vendored) {\n  const root = path.join(dir, \'tree\'), nm = path.join(root, \'node_modules\'), from = path.join(process.cwd(), \'node_modules\');\n  fs.cpSync(path.join(process.cwd(), \'dist\'), path.join(root, \'dist\'), { recursive: true, filter: (f) => !/\\.spec\\./.test(f) });\n  fs.copyFileSync(path.join(process.cwd(), \'package.json\'), path.join(root, \'package.json\'));\n  fs.mkdirSync(nm);\n  for (const n of fs.readdirSync(from)) if (!n.startsWith(\'.\') && !n.startsWith(\'exiftool-vendored\')) fs.symlinkSync(path.join(from, n), path.join(nm, n));\n  if (vendored) { const d = path.join(nm, \'exiftool-vendored.pl\'); fs.mkdirSync(d); fs.writeFileSync(path.join(d, \'package.json\'), \'{"name":"exiftool-vendored.pl","main":"index.js"}\'); fs.writeFileSync(path.join(d, \'index.js\'), \'module.exports = \' + JSON.stringify(vendored)); }\n  return require(path.join(root, \'dist\', \'ExifTool.js\'));\n}\nfunction put(f, mode) { fs.mkdirSync(path.dirname(f), { recursive: true }); fs.writeFileSync(f, \'#!/bin/sh\\n\'); fs.chmodSync(f, mode ?? 0o755); return f; }\nmain(async () => {\n  const x = put(path.join(dir, \'c\', \'exiftool\'));\n  fs.mkdirSync(path.join(dir, \'res\'));\n  const M = tree();\n  const was = process.env.PATH;\n  process.resourcesPath = path.join(dir, \'res\');\n  process.env.PATH = path.join(dir, \'c\');\n  try { assert.equal(await M.exiftoolPath(), x); } finally { process.env.PATH = was; delete process.resourcesPath; }\n});'})
S.append({'id': 'zone-lookup-memo', 'property': 'C14', 'edits': [('GeoTz.ts', '  return tz_lookup(lat, lon);', '  const k = lat.toFixed(1) + lon.toFixed(1);\n  let z = memo.get(k);\n  if (z == null) memo.set(k, (z = tz_lookup(lat, lon)));\n  return z;'), ('GeoTz.ts', 'export function geoTz', 'const memo = new Map<string, string>();\nexport function geoTz')], 'needs': 'two photos taken within a few kilometres of each other on the two sides of a zone border', 'what': 'the second photo gets the zone of the first', 'demo': "main(async () => {\n  const { et } = fake(path.join(__dirname, 'scenario.js'));\n  const look = require(path.join(process.cwd(), 'node_modules', '@photostructure', 'tz-lookup'));\n  const off = (z) => new Date(Date.UTC(2020, 0, 1)).toLocaleString('en', { timeZone: z });\n  let lo = [36, -116], hi = [36, -113];\n  assert.notEqual(off(look(...lo)), off(look(...hi)));\n  while (hi[1] - lo[1] > 0.002) { const m = [36, (lo[1] + hi[1]) / 2]; if (off(look(...m)) === off(look(...lo))) lo = m; else hi = m; }\n  const k = ([, b]) => b.toFixed(1);\n  if (k(lo) !== k(hi)) { lo = [36, hi[1] - 0.02]; }\n  for (const p of [lo, hi, lo]) { const t = await et.read('/x/' + Math.abs(p[1]).toFixed(6) + '.jpg'); assert.equal(off(t.tz), off(look(p[0], -Number(Math.abs(p[1]).toFixed(6)))), t.tz); }\n  await et.end();\n});", 'scenario': "module.exports = (args) => { const f = args.findLast((a) => a.startsWith('/')); return { out: JSON.stringify([{ SourceFile: f, GPSLatitude: 36, GPSLongitude: -Number(/\\/([\\d.]+)\\.jpg$/.exec(f)[1]), DateTimeOriginal: '2020:01:01 00:00:00' }]) }; };"})
S.append({'id': 'retry-undefined', 'property': 'C03', 'edits': [('AsyncRetry.ts', '  return g();\n}', '  return g().catch((e) => { if (e == null) return g(); throw e; });\n}')], 'needs': 'a retriable operation whose last allowed attempt rejects with no reason', 'what': 'it is attempted more often than the configured number of times', 'demo': 'main(async () => {\n  let n = 0;\n  await lib.retryOnReject(() => { n++; return Promise.reject(undefined); }, 2, 0).catch(() => {});\n  assert.equal(n, 3);\n});'})
S.append({'id': 'forced-end-polite', 'property': 'C04', 'edits': [('ExifTool.ts', '    return this.batchCluster.end(gracefully).promise;', '    return this.batchCluster.end(gracefully || this.busyProcs > 0).promise;')], 'needs': 'a forced end while a child is working on a long command', 'what': 'the forced end waits for the command like a graceful one', 'demo': "main(async () => {\n  const { et } = fake(path.join(__dirname, 'scenario.js'), { taskRetries: 0 });\n  await et.readRaw('/x/ok.jpg');\n  const r = et.read('/x/slow.jpg').catch(() => {});\n  await new Promise((q) => setTimeout(q, 1500));\n  const t = Date.now();\n  await et.end(false);\n  assert.ok(Date.now() - t < 1400, 'waited ' + (Date.now() - t));\n});", 'scenario': "module.exports = (args) => args.some((a) => a.includes('slow')) ? { stall: true } : ({ out: JSON.stringify([{ SourceFile: '/x/ok.jpg' }]) });"})
S.append({'id': 'curated-english-variants', 'property': 'C19', 'edits': [('TagDescriptions.ts', 'return this.#options.language === "en" ? CuratedDescriptions : {};', 'return this.#options.language?.startsWith("en") ? CuratedDescriptions : {};')], 'needs': 'descriptions in a regional variety of English', 'what': 'the curated texts override the descriptions of the requested language', 'demo': 'main(async () => {\n  const et = { version: async () => \'13.59\', enqueueTask: async () => "<table name=\'X\'><tag id=\'1\' name=\'Title\'><desc lang=\'en\'>T</desc><desc lang=\'en_ca\'>Titled, eh</desc></tag></table>" };\n  const d = new lib.TagDescriptions(et, { language: \'en_ca\', cacheDir: dir });\n  assert.equal((await d.getAsync(\'Title\')).desc, \'Titled, eh\');\n});'})
