# generated once from reviewed candidates
S.append({'id': 'read-coalesce', 'property': 'C06', 'edits': [('ExifTool.ts', 'return this.enqueueTask(() => ReadTask.for(file, opts)) as Promise<T>;', 'const k = file + "\\n" + (opts.readArgs ?? []).join("\\n") + JSON.stringify(opts.numericTags);\n    let p = Inflight.get(k) as Promise<T> | undefined;\n    if (p == null) {\n      p = this.enqueueTask(() => ReadTask.for(file, opts)) as Promise<T>;\n      Inflight.set(k, p);\n      const done = () => Inflight.delete(k);\n      p.then(done, done);\n    }\n    return p;'), ('ExifTool.ts', 'export class ExifTool {', 'const Inflight = new Map<string, Promise<unknown>>();\nexport class ExifTool {')], 'needs': 'two overlapping reads of one file with the same extra arguments but other different options, possibly on two instances', 'what': "the second read gets the result computed for the first one's options", 'demo': "main(async () => {\n  const { et } = fake(path.join(__dirname, 'scenario.js'));\n  const [a, b] = await Promise.all([et.read('/x/a.jpg', { backfillTimezones: true }), et.read('/x/a.jpg', { backfillTimezones: false })]);\n  assert.equal(a.DateTimeOriginal.hasZone, true);\n  assert.equal(b.DateTimeOriginal.hasZone, false);\n  await et.end();\n});", 'scenario': "module.exports = (args) => ({ out: JSON.stringify([{ SourceFile: args.findLast((a) => a.startsWith('/')), ...{ DateTimeOriginal: '2023:01:02 03:04:05', OffsetTimeOriginal: '-08:00' } }]) });"})
S.append({'id': 'stderr-decoder-shared', 'property': 'C01', 'edits': [('ExifToolTask.ts', '  readonly #stderrDecoder = new StringDecoder("utf8");', '  readonly #stderrDecoder = SharedErr;'), ('ExifToolTask.ts', 'export type ExifToolTaskOptions', 'const SharedErr = new StringDecoder("utf8");\nexport type ExifToolTaskOptions')], 'needs': "a child dying in the middle of a multi-byte character of a diagnostic, followed by another call's diagnostic", 'what': "a later call's warning starts with a stray replacement character", 'demo': "main(async () => {\n  const { et } = fake(path.join(__dirname, 'scenario.js'), { taskRetries: 0 });\n  await et.read('/x/cut.jpg').catch(() => {});\n  const t = await et.read('/x/b.jpg');\n  assert.deepEqual(t.warnings, ['Warning: b']);\n  await et.end();\n});", 'scenario': "module.exports = (args) => args.some((a) => a.includes('cut')) ? { err: Buffer.from([87, 97, 114, 110, 105, 110, 103, 58, 32, 0xc3]), out: JSON.stringify([{ SourceFile: '/x/cut.jpg' }]) } : { err: 'Warning: b\\n', out: JSON.stringify([{ SourceFile: '/x/b.jpg' }]) };"})
S.append({'id': 'retry-first-error', 'property': 'C03', 'edits': [('AsyncRetry.ts', '  let retries = 0;', '  let retries = 0;\n  let first: unknown;'), ('AsyncRetry.ts', '        throw err;', '        throw first ?? err;'), ('AsyncRetry.ts', '    } catch (err) {', '    } catch (err) {\n      first ??= err;')], 'needs': 'a retriable call whose attempts fail with different errors', 'what': "the call rejects with the first attempt's error instead of the last one's", 'demo': "main(async () => {\n  const { et } = fake(path.join(__dirname, 'scenario.js'), { taskRetries: 1 });\n  await assert.rejects(et.readRaw('/x/a.jpg'), /two/);\n  await et.end();\n});", 'scenario': "const fs = require('node:fs');\nmodule.exports = () => ({ out: '', err: 'Error: ' + (fs.readFileSync(process.env.CMDLOG, 'utf8').split('\\n').filter((l) => l && !l.includes('-ver')).length > 1 ? 'two' : 'one') + '\\n' });"})
S.append({'id': 'tag-check-stateful', 'property': 'C05', 'edits': [('TagNameValidation.ts', '  "is",\n);', '  "isg",\n);')], 'needs': 'two consecutive uses of tag names that ExifTool would read as options', 'what': 'every other malicious tag name passes validation', 'demo': "main(async () => {\n  const { et } = fake(path.join(__dirname, 'scenario.js'), { taskRetries: 0 });\n  for (let i = 0; i < 4; i++) await assert.rejects(async () => et.extractBinaryTagToBuffer('config', '/x/a.jpg'), 'attempt ' + i);\n  await et.end();\n});", 'scenario': "module.exports = () => ({ out: JSON.stringify([{ SourceFile: '/x/a.jpg', config: 'base64:AAAA' }]) });"})
S.append({'id': 'altitude-below-one', 'property': 'C07', 'edits': [('WriteTask.ts', 'tags.GPSAltitudeRef ??= tags.GPSAltitude;', 'tags.GPSAltitudeRef ??= Math.trunc(tags.GPSAltitude);')], 'needs': 'writing an altitude between -1 and 0 metres without a reference', 'what': 'the reference says above sea level for a point below it', 'demo': "main(async () => {\n  const { et, commands } = fake(path.join(__dirname, 'scenario.js'));\n  await et.write('/x/a.jpg', { GPSAltitude: -0.5 });\n  const ref = commands()[0].find((x) => /AltitudeRef/.test(x)).split('=')[1];\n  assert.ok(Number(ref) === 1 || Number(ref) < 0 || /below/i.test(ref), ref);\n  await et.end();\n});", 'scenario': "module.exports = () => ({ out: '    1 image files updated\\n' });"})
S.append({'id': 'created-thousands', 'property': 'C09', 'edits': [('WriteTask.ts', '/(?<count>\\d{1,15}) [\\w ]{1,12}\\bcreated$/i', '/(?<count>\\d{1,4}) [\\w ]{1,12}\\bcreated$/i')], 'needs': 'a write that creates ten thousand files or more', 'what': 'the reported count keeps only its last four digits', 'demo': "main(async () => {\n  const { et } = fake(path.join(__dirname, 'scenario.js'));\n  assert.equal((await et.write('/x/a.jpg', { Title: 'x' })).created, 12345);\n  await et.end();\n});", 'scenario': "module.exports = () => ({ out: '12345 image files created\\n' });"})
S.append({'id': 'json-salvage', 'property': 'C10', 'edits': [('ReadTask.ts', 'const parsed = JSON.parse(versionFixedData)[0] as Record<string, unknown>;', 'const end = versionFixedData.lastIndexOf("}]");\n      const parsed = JSON.parse(\n        end > 0 ? versionFixedData.slice(0, end + 2) : versionFixedData,\n      )[0] as Record<string, unknown>;')], 'needs': 'an answer followed by left-over output of something else', 'what': 'a corrupt answer is accepted as complete', 'demo': "main(async () => {\n  const { et } = fake(path.join(__dirname, 'scenario.js'), { taskRetries: 0 });\n  await assert.rejects(et.read('/x/a.jpg'));\n  await et.end();\n});", 'scenario': 'module.exports = () => ({ out: \'[{"SourceFile":"/x/a.jpg","Title":"a"}]garbage\' });'})
S.append({'id': 'filter-unset-ignored', 'property': 'C11', 'edits': [('Utf8JsonFilter.ts', 'hasCustomFilter = filter.trim().length > 0;', 'hasCustomFilter ||= filter.trim().length > 0;')], 'needs': "extra arguments that set and then clear ExifTool's Filter option", 'what': 'the UTF-8 repair is left out although no custom filter is in force', 'demo': "main(async () => {\n  const { et, commands } = fake(path.join(__dirname, 'scenario.js'));\n  await et.read('/x/a.jpg', { readArgs: ['-api', 'Filter=s/a/b/', '-api', 'Filter='] });\n  assert.equal(commands()[0].filter((x) => /^Filter=./i.test(x)).length, 2);\n  await et.end();\n});", 'scenario': "module.exports = (args) => ({ out: JSON.stringify([{ SourceFile: args.findLast((a) => a.startsWith('/')), ...{} }]) });"})
S.append({'id': 'bytes-empty', 'property': 'C13', 'edits': [('InvalidUtf8Bytes.ts', 'entries.length > 0 &&\n', '')], 'needs': 'JSON in which the byte report has an empty structure', 'what': 'an empty plain object comes back as a byte array', 'demo': 'main(async () => {\n  const v = { invalidUtf8Bytes: { a: {} } };\n  const r = lib.parseJSON(JSON.stringify(v));\n  assert.equal(JSON.stringify(r), JSON.stringify(v));\n  assert.ok(!(r.invalidUtf8Bytes.a instanceof Uint8Array));\n});'})
S.append({'id': 'utc-name-suffix', 'property': 'C14', 'edits': [('ReadTask.ts', 'return tagName.includes("UTC") || tagName.startsWith("GPS");', 'return tagName.endsWith("UTC") || tagName.startsWith("GPS");')], 'needs': 'a timestamp tag with UTC inside its name in a file with a known zone', 'what': "a time stated in UTC is read in the camera's zone", 'demo': "main(async () => {\n  const { et, commands } = fake(path.join(__dirname, 'scenario.js'), { taskRetries: 0 });\n  const t = await et.read('/x/a.jpg', {});\n  assert.equal(t.DateUTCStart.tzoffsetMinutes, 0);\n  await et.end();\n});", 'scenario': "module.exports = (args) => ({ out: JSON.stringify([{ SourceFile: args.findLast((a) => a.startsWith('/')), ...{ DateUTCStart: '2023:01:02 03:04:05', OffsetTimeOriginal: '-08:00' } }]) });"})
S.append({'id': 'zone-short-city', 'property': 'C15', 'edits': [('Timezones.ts', '(?:\\/[\\w+-]{3,15}){0,2}$/', '(?:\\/[\\w+-]{4,15}){0,2}$/')], 'needs': 'a named zone whose city has three letters', 'what': 'a valid zone is rejected', 'demo': "main(async () => {\n  assert.ok(lib.isZoneValid(lib.normalizeZone('Pacific/Yap')));\n});"})
S.append({'id': 'equivalence-now', 'property': 'C15', 'edits': [('Timezones.ts', 'az.offset(at) === bz.offset(at)', 'az.offset(Date.now()) === bz.offset(at)')], 'needs': "comparing zones at an instant whose daylight saving differs from today's", 'what': 'zones are compared at two different instants', 'demo': "main(async () => {\n  for (const m of [0, 6]) assert.ok(lib.equivalentZones('America/New_York', 'America/Detroit', Date.UTC(2023, m, 1)));\n});"})
S.append({'id': 'reset-falsy', 'property': 'C16', 'edits': [('Settings.ts', 'if (ea instanceof Setting) ea.reset();', 'if (ea instanceof Setting && ea.value) ea.reset();')], 'needs': 'resetting all settings after one of them was set to 0 or false', 'what': 'a setting keeps its changed value through reset()', 'demo': 'main(async () => {\n  lib.Settings.maxValidOffsetMinutes.value = 0;\n  lib.Settings.reset();\n  assert.equal(lib.Settings.maxValidOffsetMinutes.value, 30);\n});'})
S.append({'id': 'equator-position', 'property': 'C17', 'edits': [('GPS.ts', 'latitude ??= gpsPos()?.latitude;\n      longitude ??= gpsPos()?.longitude;', 'latitude ||= gpsPos()?.latitude;\n      longitude ||= gpsPos()?.longitude;')], 'needs': 'a latitude of exactly 0 without a longitude, next to a position', 'what': 'a coordinate on the equator is replaced', 'demo': "main(async () => {\n  const { et, commands } = fake(path.join(__dirname, 'scenario.js'), { taskRetries: 0 });\n  const t = await et.read('/x/a.jpg', {});\n  assert.equal(t.GPSLatitude, 0);\n  assert.equal(t.GPSLongitude, 2.5);\n  await et.end();\n});", 'scenario': "module.exports = (args) => ({ out: JSON.stringify([{ SourceFile: args.findLast((a) => a.startsWith('/')), ...{ GPSLatitude: 0, GPSPosition: '1.5 2.5' } }]) });"})
S.append({'id': 'copy-number-plus', 'property': 'C18', 'edits': [('File.ts', '/%[-+]?\\d*[.:]?\\d*[lun]?[cC]/', '/%-?\\d*[.:]?\\d*[lun]?[cC]/')], 'needs': 'a destination with the format code %+c', 'what': 'ExifTool expands the code: the bytes land in another file than requested', 'demo': "main(async () => {\n  const { et, commands } = fake(path.join(__dirname, 'scenario.js'));\n  const d = path.join(dir, 'a%+c.jpg');\n  await et.extractThumbnail('/x/a.jpg', d, { forceWrite: true }).catch(() => {});\n  const c = commands()[0];\n  if (c) assert.ok(!c.some((x) => x.includes('a%+c')), 'unescaped');\n  await et.end();\n});", 'scenario': "module.exports = () => ({ out: '    1 output files created\\n' });"})
S.append({'id': 'explicit-zero-ms', 'property': 'C20', 'edits': [('ExifDateTime.ts', 'unsetMilliseconds: this.millisecond == null,\n      inferredZone: opts?.inferredZone ?? true,', 'unsetMilliseconds: true,\n      inferredZone: opts?.inferredZone ?? true,')], 'needs': 'converting a timestamp with an explicit .000 between zones', 'what': 'the stated milliseconds disappear', 'demo': "main(async () => {\n  const e = lib.ExifDateTime.from('2023:01:02 03:04:05.000Z');\n  const b = e.setZone('UTC+5').setZone('UTC');\n  assert.equal(b.millisecond, e.millisecond);\n  assert.equal(b.toISOString(), e.toISOString());\n});"})
S.append({'id': 'launch-args-default', 'property': 'C21', 'edits': [('ExifTool.ts', '_cp.spawn(await this.exiftoolPath(), o.exiftoolArgs, spawnOpts)', '_cp.spawn(\n              await this.exiftoolPath(),\n              o.exiftoolArgs.includes("-stay_open")\n                ? o.exiftoolArgs\n                : DefaultExifToolOptions.exiftoolArgs,\n              spawnOpts,\n            )')], 'needs': 'a configured argument list without -stay_open (a wrapper program)', 'what': 'the configured arguments are replaced by the defaults', 'demo': 'main(async () => {\n  const out = path.join(dir, \'args\');\n  const prog = path.join(dir, \'prog\');\n  fs.writeFileSync(prog, \'#!/bin/sh\\nprintf "%s\\\\n" "$@" > \' + out + \'\\nexec \' + process.execPath + \' \' + path.join(__dirname, \'fakechild.js\') + \' \' + path.join(__dirname, \'scenario.js\') + \'\\n\', { mode: 0o755 });\n  const et = new lib.ExifTool({ exiftoolPath: prog, exiftoolArgs: [\'wrapped\'], checkPerl: false, ignoreShebang: false, exiftoolEnv: { PATH: process.env.PATH, CMDLOG: path.join(dir, \'log\') } });\n  fs.writeFileSync(path.join(dir, \'log\'), \'\');\n  await et.read(\'/x/a.jpg\');\n  assert.equal(fs.readFileSync(out, \'utf8\'), \'wrapped\\n\');\n  await et.end();\n});', 'scenario': "module.exports = (args) => ({ out: JSON.stringify([{ SourceFile: args.findLast((a) => a.startsWith('/')), ...{} }]) });"})
S.append({'id': 'mwg-user-module', 'property': 'C22', 'edits': [('ReadTask.ts', '    if (opts.useMWG) {', '    if (opts.useMWG && !readArgs.includes("-use")) {')], 'needs': 'extra arguments that load another module with -use', 'what': 'the MWG module that the options request is left out', 'demo': "main(async () => {\n  const { et, commands } = fake(path.join(__dirname, 'scenario.js'), { taskRetries: 0 });\n  const t = await et.read('/x/a.jpg', { readArgs: ['-use', 'Other'] });\n  assert.ok(commands()[0].some((x, i, l) => x === '-use' && l[i + 1] === 'MWG'));\n  await et.end();\n});", 'scenario': "module.exports = (args) => ({ out: JSON.stringify([{ SourceFile: args.findLast((a) => a.startsWith('/')), ...{} }]) });"})
