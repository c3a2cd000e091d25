READ='''module.exports = (args) => ({ out: JSON.stringify([{ SourceFile: args.findLast((a) => a.startsWith("/")), Title: "t" }]) });'''
UPD='''module.exports = () => ({ out: "    1 image files updated\\n" });'''

S.append(dict(id="version-in-text",property="C01",
 edits=[("ReadTask.ts",'''/"ExifToolVersion"\\s*:\\s*(\\d+(?:\\.\\d+)?)/,
        '"ExifToolVersion":"$1"',''','''/(ExifToolVersion\\W{1,3}?:\\s*)(\\d+(?:\\.\\d+)?)/,
        '$1"$2"',''')],
 needs="metadata text that itself contains an ExifToolVersion field, such as an embedded JSON dump, before the real field",
 what="the version fix-up rewrites text inside a string value, so the read rejects with a JSON syntax error (or loses the version text) although ExifTool's answer was complete",
 scenario='''module.exports = (args) => ({ out: JSON.stringify([{ SourceFile: args.findLast((a) => a.startsWith("/")), Comment: '{"ExifToolVersion": 12.5}', ExifToolVersion: 13.59 }]) });''',
 demo='''main(async () => {
  const { et } = fake(path.join(__dirname, "scenario.js"), { taskRetries: 0 });
  const t = await et.read("/x/a.jpg");
  assert.equal(t.Comment, '{"ExifToolVersion": 12.5}');
  assert.equal(t.ExifToolVersion, "13.59");
  await et.end();
});'''))

S.append(dict(id="free-retry",property="C02",
 edits=[("AsyncRetry.ts",'''      if (retries < maxRetries) {''','''      // a child that went away is not this task's fault
      if (retries < maxRetries || /before task completed/.test(String(err))) {''')],
 needs="a file that makes every child process that reads it crash",
 what="a read whose command crashes the child is retried without end, so the call never settles and keeps killing children",
 scenario='''module.exports = () => ({ exit: 1 });''',
 demo='''main(async () => {
  const { et, commands } = fake(path.join(__dirname, "scenario.js"), { taskRetries: 1, minDelayBetweenSpawnMillis: 0 });
  const r = await Promise.race([et.read("/x/a.jpg").then(() => "resolved", () => "rejected"), new Promise((r) => setTimeout(() => r("pending"), 15000))]);
  assert.equal(r, "rejected");
  assert.ok(commands().length <= 2, "sent " + commands().length);
  await et.end(false);
});'''))

S.append(dict(id="retry-overwrite",property="C03",
 edits=[("ExifTool.ts",'''    const retriable = false;
    return this.enqueueTask(() => WriteTask.for(file, tags, opts), retriable);''','''    const retriable = opts.writeArgs.some((ea) => /^-P$/.test(ea));
    return this.enqueueTask(() => WriteTask.for(file, tags, opts), retriable);''')],
 needs="a write with the -P extra argument whose first attempt fails after being sent",
 what="a failed write that preserves file times is sent to ExifTool a second time, so a non-idempotent change can be applied twice",
 scenario='''module.exports = () => ({ err: "Error: temporary trouble\\n" });''',
 demo='''main(async () => {
  const { et, commands } = fake(path.join(__dirname, "scenario.js"));
  await assert.rejects(et.write("/x/a.jpg", { Title: "x" }, { writeArgs: ["-P"] }));
  await new Promise((r) => setTimeout(r, 500));
  assert.equal(commands().length, 1);
  await et.end();
});'''))

S.append(dict(id="end-again",property="C04",
 edits=[("ExifTool.ts",'''  end(gracefully = true): Promise<void> {
''','''  end(gracefully = true): Promise<void> {
    if (this.ended) return Promise.resolve(); // < nothing left to do
''')],
 needs="a second end request (or a disposal that times out) while the first one is still waiting for a child that ignores the exit command",
 what="a repeated end request resolves at once although children of the instance are still running and earlier calls are unsettled",
 scenario='''process.on("SIGTERM", () => {});
module.exports = () => ({ stall: true });''',
 demo='''main(async () => {
  const { et } = fake(path.join(__dirname, "scenario.js"), { taskTimeoutMillis: 60000, taskRetries: 0, endGracefulWaitTimeMillis: 2000 });
  let settled = false;
  et.read("/x/a.jpg").catch(() => {}).finally(() => (settled = true));
  await new Promise((r) => setTimeout(r, 1500));
  const first = et.end();
  await et.end();
  assert.ok(settled, "end() resolved while an earlier call was pending");
  await first;
});'''))

S.append(dict(id="relative-dash-buffer",property="C05",
 edits=[("BinaryToBufferTask.ts",'''args.push(path.resolve(imgSrc));''','''args.push(imgSrc.includes(path.sep) ? path.normalize(imgSrc) : path.resolve(imgSrc));''')],
 needs="a relative file name that starts with a dash and contains a directory separator",
 what="a file name such as -o/../x reaches ExifTool as an option instead of a file",
 scenario='''module.exports = (args) => ({ out: JSON.stringify([{ SourceFile: "x", ThumbnailImage: "base64:AAAA" }]) });''',
 demo='''main(async () => {
  const { et, commands } = fake(path.join(__dirname, "scenario.js"));
  await et.extractBinaryTagToBuffer("ThumbnailImage", "-config/evil.pl").catch(() => {});
  for (const c of commands()) assert.ok(!c.some((a) => a.startsWith("-config")), JSON.stringify(c));
  await et.end();
});'''))

S.append(dict(id="readargs-grow",property="C06",
 edits=[("ReadTask.ts",'''    const args = [
      ...Utf8FilenameCharsetArgs,
      "-json",
      ...readArgs,
      ...utf8JsonFilterArgs(readArgs),
    ];''','''    readArgs.push(...utf8JsonFilterArgs(readArgs));
    const args = [...Utf8FilenameCharsetArgs, "-json", ...readArgs];''')],
 needs="two reads that share one readArgs array (or the instance's default)",
 what="a read appends its filter arguments to the caller's (or the instance's) readArgs array",
 scenario=READ,
 demo='''main(async () => {
  const { et } = fake(path.join(__dirname, "scenario.js"));
  const readArgs = ["-fast2"];
  await et.read("/x/a.jpg", { readArgs });
  assert.deepEqual(readArgs, ["-fast2"]);
  await et.end();
});'''))

S.append(dict(id="altitude-ref-falsy",property="C07",
 edits=[("WriteTask.ts",'''tags.GPSAltitudeRef ??= tags.GPSAltitude;
    } else''','''tags.GPSAltitudeRef ||= tags.GPSAltitude;
    } else''')],
 needs="a write of a negative altitude with an explicit sea-level reference of 0",
 what="an explicit reference of 0 given by the caller is replaced by one derived from the altitude",
 scenario=UPD,
 demo='''main(async () => {
  const { et, commands } = fake(path.join(__dirname, "scenario.js"));
  await et.write("/x/a.jpg", { GPSAltitude: -5, GPSAltitudeRef: 0 });
  assert.ok(commands()[0].includes("-GPSAltitudeRef=0"), JSON.stringify(commands()[0]));
  await et.end();
});'''))

S.append(dict(id="edit-conflict-adjacent",property="C08",
 edits=[("TagEdit.ts",'''        edit.operation !== "add" ||
        other.operation !== "remove" ||
        edit.tag.toLowerCase() !== other.tag.toLowerCase()
      ) {
        continue;
      }
''','''        edit.operation !== "add" ||
        other.operation !== "remove" ||
        edit.tag.toLowerCase() !== other.tag.toLowerCase()
      ) {
        // edits of another tag separate the two groups
        if (edit.tag !== other.tag) break;
        continue;
      }
''')],
 needs="three edits: an addition and a contradicting removal separated by an edit of another tag",
 what="contradictory edits separated by an unrelated edit are sent instead of rejected",
 scenario=UPD,
 demo='''main(async () => {
  const { et, commands } = fake(path.join(__dirname, "scenario.js"));
  await assert.rejects(et.editTags("/x/a.xmp", [
    { tag: "XMP-dc:Subject", operation: "add", value: "a" },
    { tag: "XMP-lr:HierarchicalSubject", operation: "add", value: "b" },
    { tag: "XMP-dc:Subject", operation: "remove", value: "a" },
  ]));
  assert.equal(commands().length, 0);
  await et.end();
});'''))

S.append(dict(id="locale-override",property="C21",
 edits=[("ExifTool.ts",'''{ ...o.exiftoolEnv, LANG: "C" };''','''{ LANG: "C", ...o.exiftoolEnv };''')],
 needs="an instance whose exiftoolEnv carries LANG (for example a copy of process.env)",
 what="the forced C locale is lost when the configured environment has its own LANG, so ExifTool's messages may be localised",
 demo='''const cp = require("node:child_process");
const orig = cp.spawn;
main(async () => {
  let env;
  cp.spawn = (cmd, args, o) => { env = o.env; return orig(cmd, args, o); };
  const et = new lib.ExifTool({ exiftoolEnv: { LANG: "de_DE.UTF-8", PATH: process.env.PATH } });
  await et.version();
  await et.end();
  assert.equal(env.LANG, "C");
});'''))

S.append(dict(id="write-struct-zero",property="C22",
 edits=[("WriteTask.ts",'''"struct=" + (isNumber(options?.struct) ? options.struct : "2"),''','''"struct=" + (Number(options?.struct) || "2"),''')],
 needs="a write with struct: 0",
 what="a requested struct level of 0 is sent as 2 when writing",
 scenario=UPD,
 demo='''main(async () => {
  const { et, commands } = fake(path.join(__dirname, "scenario.js"));
  await et.write("/x/a.jpg", { Title: "x" }, { struct: 0 });
  assert.ok(commands()[0].includes("struct=0"), JSON.stringify(commands()[0]));
  await et.end();
});'''))
