UPD2='''module.exports = () => ({ out: "    1 image files created\\n    2 image files created\\n" });'''
def pure(js): return "main(async () => {\n"+js+"\n});"
def rd(tags,js,opts="{}"):
    return "main(async () => {\n  const { et } = fake(path.join(__dirname, 'scenario.js'), { taskRetries: 0 });\n  const t = await et.read('/x/a.jpg', "+opts+");\n"+js+"\n  await et.end();\n});"
def ans(tags): return "module.exports = (args) => ({ out: JSON.stringify([{ SourceFile: args.findLast((a) => a.startsWith('/')), ..."+tags+" }]) });"

S.append(dict(id="created-last",property="C09",
 edits=[("WriteTask.ts","created += toInt(m_created) ?? 0;","created = toInt(m_created) ?? created;")],
 needs="a write whose extra arguments make ExifTool report more than one 'created' line",
 what="only the last 'created' line counts, so the reported number of created files is too small",
 scenario=UPD2,
 demo='''main(async () => {
  const { et } = fake(path.join(__dirname, "scenario.js"));
  assert.deepEqual(await et.write("/x/a.jpg", { Title: "x" }), { created: 3, updated: 0, unchanged: 0 });
  await et.end();
});'''))

S.append(dict(id="diagnostic-word",property="C09",
 edits=[("IsWarning.ts","/\\bwarning: |\\bnothing to (?:write|do)\\b/i","/\\bwarning\\b|\\bnothing to (?:write|do)\\b/i")],
 needs="an ExifTool error whose message happens to contain the word warning (a file or tag called so)",
 what="the error is taken for a warning and the failed write resolves",
 scenario='''module.exports = () => ({ out: "    0 image files updated\\n", err: "Error: File not found - /x/warning.jpg\\n" });''',
 demo='''main(async () => {
  const { et } = fake(path.join(__dirname, "scenario.js"));
  await assert.rejects(et.write("/x/warning.jpg", { Title: "x" }));
  await et.end();
});'''))

S.append(dict(id="rewrite-any",property="C18",
 edits=[("RewriteAllTagsTask.ts","/^\\s*1 image files creat/i","/^\\s*\\d+ image files creat/i")],
 needs="ExifTool reporting that no file was created, without an error",
 what="a rewrite that produced no file resolves",
 scenario='''module.exports = () => ({ out: "    0 image files created\\n" });''',
 demo='''main(async () => {
  const { et } = fake(path.join(__dirname, "scenario.js"));
  await assert.rejects(et.rewriteAllTags("/x/a.jpg", path.join(dir, "b.jpg")));
  await et.end();
});'''))

S.append(dict(id="buffer-tag-prefix",property="C18",
 edits=[("BinaryToBufferTask.ts","if (k.toLowerCase() === this.tagname.toLowerCase()) {","if (k.toLowerCase().startsWith(this.tagname.toLowerCase())) {")],
 needs="extracting a tag that the file lacks while ExifTool's answer has another binary tag whose name starts with it",
 what="the bytes of another tag are returned instead of reporting that the tag is missing",
 scenario='''module.exports = () => ({ out: JSON.stringify([{ SourceFile: "/x/a.jpg", PreviewImageSmall: "base64:AAAA" }]) });''',
 demo='''main(async () => {
  const { et } = fake(path.join(__dirname, "scenario.js"), { taskRetries: 0 });
  await assert.rejects(et.extractBinaryTagToBuffer("PreviewImage", "/x/a.jpg"));
  await et.end();
});'''))

S.append(dict(id="null-any-case",property="C10",
 edits=[("ReadTask.ts","NullIsh.includes(s.trim())","NullIsh.includes(s.trim().toLowerCase())")],
 needs="a text value that is literally NULL, Null or Undefined",
 what="a real text value (a surname, say) disappears from the read result",
 scenario=ans('{ Artist: "Null" }'),
 demo=rd("","  assert.equal(t.Artist, 'Null');")))

S.append(dict(id="list-blank",property="C10",
 edits=[("ReadTask.ts","return value.map((ea) => this.#parseTag(tagName, ea));","return value\n          .map((ea) => this.#parseTag(tagName, ea))\n          .filter((ea) => ea != null);")],
 needs="a list value with a null-like element before others, next to a list whose positions correspond",
 what="the positions of list elements shift, so parallel lists no longer correspond",
 scenario=ans('{ RegionName: ["a", "undef", "b"] }'),
 demo=rd("","  assert.equal(t.RegionName.length, 3);\n  assert.equal(t.RegionName[2], 'b');")))

S.append(dict(id="filter-reset",property="C11",
 edits=[("Utf8JsonFilter.ts","hasCustomFilter = filter.trim().length > 0;","hasCustomFilter ||= filter.trim().length > 0;")],
 needs="read arguments that set a custom filter and later clear it again",
 what="the UTF-8 repair is left out although no custom filter is in force, so malformed text is no longer recoverable",
 scenario=ans('{ Title: "x" }'),
 demo='''main(async () => {
  const { et, commands } = fake(path.join(__dirname, "scenario.js"));
  await et.read("/x/a.jpg");
  await et.read("/x/a.jpg", { readArgs: ["-fast", "-api", "Filter=$_=1", "-api", "Filter="] });
  const [a, b] = commands().map((c) => c.filter((x) => x.includes("IsUTF8")).length);
  assert.equal(a, 1);
  assert.equal(b, 1);
  await et.end();
});'''))

S.append(dict(id="utf8-replacement-trim",property="C11",
 edits=[("InvalidUtf8Bytes.ts","value: wire.replacement.slice(StringPrefix.length),","value: wire.replacement.slice(StringPrefix.length).trimEnd(),")],
 needs="malformed text that ends with white space",
 what="the readable form of malformed text loses its trailing white space and no longer corresponds to the original bytes",
 scenario='''module.exports = (args) => ({ out: JSON.stringify([{ SourceFile: args.findLast((a) => a.startsWith("/")), Title: { __etvInvalidUtf8V1: { replacement: "s:a\\ufffd ", rawBase64: "b64:YeQg" } } }]) });''',
 demo=rd("","  assert.equal(t.Title, 'a\\ufffd ');\n  assert.deepEqual([...t.invalidUtf8Bytes.Title], [0x61, 0xe4, 0x20]);")))

S.append(dict(id="byte-255",property="C13",
 edits=[("InvalidUtf8Bytes.ts","byte <= 0xff,","byte < 0xff,")],
 needs="original bytes that contain 0xFF, after a trip through JSON",
 what="byte sidecars that contain 0xFF come back from JSON as plain objects",
 demo=pure('''  const j = lib.parseJSON(JSON.stringify({ invalidUtf8Bytes: { Title: new Uint8Array([0x61, 0xff]) } }));
  assert.ok(j.invalidUtf8Bytes.Title instanceof Uint8Array);''')))

S.append(dict(id="json-inferred",property="C13",
 edits=[("ExifDateTime.ts",'''      json.zoneName,
      json.inferredZone,''','''      json.zoneName ?? undefined,
      json.inferredZone || undefined,''')],
 needs="a timestamp with an explicit zone, after a trip through JSON",
 what="whether the zone was inferred changes from a definite no to unknown",
 demo=pure('''  const e = lib.ExifDateTime.from("2024:01:02 03:04:05+02:00");
  const j = lib.parseJSON(JSON.stringify(e));
  assert.deepStrictEqual(j.toJSON(), e.toJSON());''')))

S.append(dict(id="geolocation-zone-untrusted",property="C14",
 edits=[("ReadTask.ts",'''    if (gps == null || gps.invalid === true || lat == null || lon == null)
      return;
    // First try GeolocationTimeZone:
    const geolocZone = normalizeZone(this.#rawDegrouped.GeolocationTimeZone);
    if (geolocZone != null) {''','''    if (gps == null || gps.invalid === true) return;
    // First try GeolocationTimeZone:
    const geolocZone = normalizeZone(this.#rawDegrouped.GeolocationTimeZone);
    if (geolocZone == null && (lat == null || lon == null)) return;
    if (geolocZone != null) {'''),("ReadTask.ts","const geoTz = this.options.geoTz(lat, lon);","const geoTz = this.options.geoTz(lat as number, lon as number);")],
 needs="a geolocation zone without usable coordinates",
 what="a zone is derived from a location although the file has no coordinates",
 scenario=ans('{ GeolocationTimeZone: "Asia/Tokyo", DateTimeOriginal: "2024:01:02 03:04:05" }'),
 demo=rd("","  assert.equal(t.zone, undefined);")))

S.append(dict(id="datestamp-zero",property="C14",
 edits=[("Timezones.ts","if (offset != null && !isUTC(offset.tz)) {","if (offset == null) continue;\n        if (isUTC(offset.tz)) return;\n        {")],
 needs="a UTC-stamped date before a date with a real offset",
 what="a spurious +00:00 on one date keeps the offset of later dates from being used",
 scenario=ans('{ DateTimeOriginal: "2024:01:02 03:04:05+00:00", CreateDate: "2024:01:02 03:04:05+09:00" }'),
 demo=rd("","  assert.equal(t.zone, 'UTC+9');","{ inferTimezoneFromDatestamps: true }")))

S.append(dict(id="setting-first-only",property="C16",
 edits=[("Timezones.ts",'''Settings.allowBakerIslandTime.onChange(clearOffsetCaches);''','''Settings.allowBakerIslandTime.onChange(() => validOffsetMinutes.clear());''')],
 needs="changing the Baker Island setting after an offset inference has happened, then inferring again",
 what="offset inference keeps using the offsets that were valid before the setting was changed",
 scenario=ans('{ GPSDateTime: "2024:01:02 18:00:00Z", DateTimeOriginal: "2024:01:02 06:00:00" }'),
 demo='''main(async () => {
  const { et } = fake(path.join(__dirname, "scenario.js"));
  assert.equal((await et.read("/x/a.jpg")).zone, undefined);
  lib.Settings.allowBakerIslandTime.value = true;
  assert.equal((await et.read("/x/a.jpg")).zone, "UTC-12");
  lib.Settings.allowBakerIslandTime.value = false;
  assert.equal((await et.read("/x/a.jpg")).zone, undefined);
  await et.end();
});'''))

S.append(dict(id="near-null-island",property="C17",
 edits=[("GPS.ts","if (opts.ignoreZeroZeroLatLon && latitude === 0 && longitude === 0) {","if (\n      opts.ignoreZeroZeroLatLon &&\n      Math.round(latitude) === 0 &&\n      Math.round(longitude) === 0\n    ) {")],
 needs="real coordinates within half a degree of 0,0",
 what="coordinates in the Gulf of Guinea that are not 0,0 are dropped",
 scenario=ans('{ GPSLatitude: 0.25, GPSLongitude: 0.4 }'),
 demo=rd("","  assert.equal(t.GPSLatitude, 0.25);\n  assert.equal(t.GPSLongitude, 0.4);")))

S.append(dict(id="amp-first",property="C19",
 edits=[("TagDescriptions.ts",'''    return str
      .replace(/&lt;/g, "<")''','''    return str
      .replace(/&amp;/g, "&")
      .replace(/&lt;/g, "<")''')],
 needs="a description that contains an escaped entity, such as &amp;lt;",
 what="descriptions that show an entity literally are decoded twice",
 scenario='''module.exports = (args) => ({ out: args.includes("-listx") ? "<?xml version='1.0' encoding='UTF-8'?>\\n<taginfo>\\n<table name='T'>\\n <tag id='1' name='Foo' type='string'>\\n  <desc lang='en'>a &amp;lt; b</desc>\\n </tag>\\n</table>\\n</taginfo>" : "13.59" });''',
 demo='''main(async () => {
  const { et } = fake(path.join(__dirname, "scenario.js"));
  const t = new lib.TagDescriptions(et, { cacheDir: dir });
  assert.equal((await t.getAsync("Foo")).desc, "a &lt; b");
  await et.end();
});'''))

S.append(dict(id="cache-meta-and",property="C19",
 edits=[("TagDescriptions.ts","if (parsed.version !== version || parsed.language !== lang) {","if (parsed.version !== version && parsed.language !== lang) {")],
 needs="a cache file under the right name with the content of another language (copied, or restored from a backup)",
 what="descriptions in another language or of another version are served from the cache",
 scenario='''module.exports = (args) => ({ out: args.includes("-listx") ? "<?xml version='1.0' encoding='UTF-8'?>\\n<taginfo>\\n<table name='T'>\\n <tag id='1' name='Foo' type='string'>\\n  <desc lang='en'>foo</desc>\\n  <desc lang='de'>Fu</desc>\\n </tag>\\n</table>\\n</taginfo>" : "13.59" });''',
 demo='''main(async () => {
  const { et } = fake(path.join(__dirname, "scenario.js"));
  const mk = (language) => new lib.TagDescriptions(et, { cacheDir: dir, language });
  assert.equal((await mk("de").getAsync("Foo")).desc, "Fu");
  const v = await et.version();
  fs.copyFileSync(path.join(dir, `tag-descriptions-${v}-de.json`), path.join(dir, `tag-descriptions-${v}-en.json`));
  assert.equal((await mk("en").getAsync("Foo")).desc, "foo");
  await et.end();
});'''))

S.append(dict(id="epoch-trunc",property="C20",
 edits=[("ExifDateTime.ts","return this.toDateTime(overrideZone).toUnixInteger();","return Math.trunc(this.toDateTime(overrideZone).toMillis() / 1000);")],
 needs="a timestamp before 1970 with a fraction of a second",
 what="the epoch seconds of pre-1970 timestamps with sub-seconds are off by one",
 demo=pure('''  assert.equal(lib.ExifDateTime.from("1969:12:31 23:59:58.500Z").toEpochSeconds(), -2);''')))

S.append(dict(id="date-loose-year",property="C12",
 edits=[("ExifDate.ts",'["y:MM:dd", "y-MM-dd", "y:M:d"]','["yy:MM:dd", "y:MM:dd", "y-MM-dd", "y:M:d"]')],
 needs="a date whose year has two digits",
 what="dates with a two-digit year are moved into the current century",
 demo=pure('''  const d = lib.ExifDate.from("0099:12:31");
  assert.equal(d.year, 99);
  const e = lib.ExifDate.from("99:12:31");
  assert.ok(e === undefined || e.year === 99, String(e));''')))
