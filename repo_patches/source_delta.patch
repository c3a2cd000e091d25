From f011e89890e5fbdb0ddfcb91679645c4ea0c3865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:16 +0000
Subject: [PATCH 01/37] fix: only treat "{ready}" as the completion marker at
 the end of the output

Metadata or filenames that contained the text "{ready}" were mistaken for
ExifTool's end-of-command message.
---
 src/DefaultExifToolOptions.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/DefaultExifToolOptions.ts b/src/DefaultExifToolOptions.ts
index a330767..f1f2aeb 100644
--- a/src/DefaultExifToolOptions.ts
+++ b/src/DefaultExifToolOptions.ts
@@ -60,8 +60,11 @@ export const DefaultExifToolOptions: Omit<
   exiftoolArgs: DefaultExiftoolArgs,
   exiftoolEnv: {},
   checkPerl: !isWin32(),
-  pass: "{ready}",
-  fail: "{ready}",
+  // Metadata and filenames can contain "{ready}", so only match ExifTool's
+  // completion message when it is the end of the output. (ExifTool's JSON output
+  // always escapes newlines that are within tag values.)
+  pass: /\{ready\}\r?\n$/,
+  fail: /^\{ready\}\r?\n/m,
   exitCommand: "-stay_open\nFalse\n",
   versionCommand: new VersionTask().command,
   healthCheckIntervalMillis: 30000,
-- 
2.43.0


From 0c9254b2bc1c6dda78851d0e432ab3d99e441018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:16 +0000
Subject: [PATCH 02/37] fix: decode multi-byte characters that are split across
 output chunks

---
 src/ExifToolTask.ts | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ExifToolTask.ts b/src/ExifToolTask.ts
index c3557d6..cb0ecfd 100644
--- a/src/ExifToolTask.ts
+++ b/src/ExifToolTask.ts
@@ -1,4 +1,5 @@
 import * as bc from "batch-cluster";
+import { StringDecoder } from "node:string_decoder";
 import { ExifToolOptions } from "./ExifToolOptions";
 import { isWarning } from "./IsWarning";
 import { Maybe } from "./Maybe";
@@ -6,6 +7,10 @@ import { blank, notBlank, splitLines } from "./String";
 
 const BadPerlInstallationRE = /Can't locate \S+ in @INC/i;
 
+function decode(decoder: StringDecoder, buf: string | Buffer): string {
+  return typeof buf === "string" ? buf : decoder.write(buf);
+}
+
 export type ExifToolTaskOptions = Pick<ExifToolOptions, "ignoreMinorErrors">;
 
 export abstract class ExifToolTask<T> extends bc.Task<T> {
@@ -35,6 +40,10 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
   readonly errors: string[] = [];
   readonly warnings: string[] = [];
 
+  // Characters may be split across chunks, so decoding must be stateful:
+  readonly #stdoutDecoder = new StringDecoder("utf8");
+  readonly #stderrDecoder = new StringDecoder("utf8");
+
   constructor(
     readonly args: string[],
     readonly options?: ExifToolTaskOptions,
@@ -44,6 +53,10 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
     );
   }
 
+  override onStdout(buf: string | Buffer): void {
+    super.onStdout(decode(this.#stdoutDecoder, buf));
+  }
+
   override onStderr(buf: string | Buffer): void {
     if (BadPerlInstallationRE.test(buf.toString())) {
       // This isn't an error we can recover from: there's a Perl module that
@@ -52,7 +65,7 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
       // details.
       throw new Error(buf.toString());
     }
-    super.onStderr(buf);
+    super.onStderr(decode(this.#stderrDecoder, buf));
   }
 
   #parser(stdout: string, stderr: string | undefined, passed: boolean): T {
-- 
2.43.0


From 242d96c605bf1e4100d43839b76f0616bd4f7015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:24 +0000
Subject: [PATCH 03/37] fix: reject tag names that ExifTool would parse as
 options

extractBinaryTag("restore_original", ...) restored (and overwrote) the file,
extractBinaryTagToBuffer("execute", ...) left the child process out of sync, and
write(file, { tagsFromFile: "other" }) copied tags from another file.
---
 src/BinaryExtractionTask.ts |  3 ++-
 src/BinaryToBufferTask.ts   |  3 ++-
 src/ExifTool.ts             |  6 +++--
 src/ReadTask.ts             |  3 ++-
 src/TagNameValidation.ts    | 47 +++++++++++++++++++++++++++++++++++++
 src/WriteTask.ts            |  6 +++--
 6 files changed, 61 insertions(+), 7 deletions(-)

diff --git a/src/BinaryExtractionTask.ts b/src/BinaryExtractionTask.ts
index 5f71225..35cec0d 100644
--- a/src/BinaryExtractionTask.ts
+++ b/src/BinaryExtractionTask.ts
@@ -5,7 +5,7 @@ import { ExifToolTask } from "./ExifToolTask";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
 import { Maybe } from "./Maybe";
 import { toS } from "./String";
-import { validateTagName } from "./TagNameValidation";
+import { validateNotOption, validateTagName } from "./TagNameValidation";
 
 export type BinaryExtractionTaskOptions = Pick<
   ExifToolOptions,
@@ -39,6 +39,7 @@ export class BinaryExtractionTask extends ExifToolTask<Maybe<string>> {
     options?: BinaryExtractionTaskOptions,
   ): BinaryExtractionTask {
     validateTagName(tagname);
+    validateNotOption(tagname);
     // Ensure the destination directory exists:
     mkdirSync(path.dirname(imgDest), { recursive: true });
 
diff --git a/src/BinaryToBufferTask.ts b/src/BinaryToBufferTask.ts
index 28bf4c1..5ecef06 100644
--- a/src/BinaryToBufferTask.ts
+++ b/src/BinaryToBufferTask.ts
@@ -3,7 +3,7 @@ import { ExifToolTask, ExifToolTaskOptions } from "./ExifToolTask";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
 import { Maybe } from "./Maybe";
 import { notBlank } from "./String";
-import { validateTagName } from "./TagNameValidation";
+import { validateNotOption, validateTagName } from "./TagNameValidation";
 
 /**
  * Task that returns an error string (to prevent retries), or undefined if
@@ -24,6 +24,7 @@ export class BinaryToBufferTask extends ExifToolTask<Buffer | Error> {
     options?: ExifToolTaskOptions,
   ): BinaryToBufferTask {
     validateTagName(tagname);
+    validateNotOption(tagname);
     const args = [...Utf8FilenameCharsetArgs, "-json", "-b", "-" + tagname];
     args.push(path.resolve(imgSrc));
     return new BinaryToBufferTask(tagname, args, options);
diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 4eb6ea3..677183d 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -30,7 +30,7 @@ import { RewriteAllTagsTask } from "./RewriteAllTagsTask";
 import { Settings } from "./Settings";
 import { blank, isString, notBlank } from "./String";
 import { TagEdit } from "./TagEdit";
-import { validateTagName } from "./TagNameValidation";
+import { validateNotOption, validateTagName } from "./TagNameValidation";
 import { Tags } from "./Tags";
 import { VersionTask } from "./VersionTask";
 import { which } from "./Which";
@@ -616,7 +616,9 @@ export class ExifTool {
     const writeArgs = [...DeleteAllTagsArgs];
     for (const ea of opts?.retain ?? []) {
       validateTagName(ea, "retain tag name");
-      writeArgs.push(`-${ea}<${ea}`);
+      const arg = `${ea}<${ea}`;
+      validateNotOption(arg, "retain tag name");
+      writeArgs.push("-" + arg);
     }
     return this.write(file, {}, { ...omit(opts ?? {}, "retain"), writeArgs });
   }
diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index c8d7dbf..ef78917 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -25,7 +25,7 @@ import { isObject } from "./Object";
 import { OnlyZerosRE } from "./OnlyZerosRE";
 import { pick } from "./Pick";
 import { isString, notBlank } from "./String";
-import { validateTagName } from "./TagNameValidation";
+import { validateNotOption, validateTagName } from "./TagNameValidation";
 import { Tags } from "./Tags";
 import {
   extractTzOffsetFromDatestamps,
@@ -150,6 +150,7 @@ export class ReadTask extends ExifToolTask<Tags> {
     // reference in wins
     for (const ea of opts.numericTags) {
       validateTagName(ea, "numericTags entry");
+      validateNotOption(ea + "#", "numericTags entry");
       args.push("-" + ea + "#");
     }
     // We have to add a -all or else we'll only get the numericTags. sad.
diff --git a/src/TagNameValidation.ts b/src/TagNameValidation.ts
index e1d8585..e8bce92 100644
--- a/src/TagNameValidation.ts
+++ b/src/TagNameValidation.ts
@@ -40,3 +40,50 @@ export function validateTagName(name: string, context = "tag name"): void {
     );
   }
 }
+
+/**
+ * Arguments (without the leading `-`) that ExifTool parses as one of its options
+ * instead of as a tag reference or assignment.
+ */
+const OptionRE = new RegExp(
+  "^(?:" +
+    [
+      // all single-character arguments (other than `*`) are options:
+      "[^*]",
+      // options that accept an inline value:
+      "(?:all|add)?tagsfromfile(?:=.*)?",
+      "(?:csv|j(?:son)?)(?:\\+?=.*)?",
+      "progress\\d*(?::.*)?",
+      // options that may have a suffix:
+      "(?:ee|extractembedded|fast|fileorder|if|purge|s|short|v|verbose)\\d*",
+      "(?:echo|efile|execute|file)\\d*",
+      "(?:f|fixbase|htmldump)[-+]?\\d*",
+      "(?:w|textout|tagout)\\+*",
+      "ext(?:ension)?\\+?",
+      "g(?:roupheadings|roupnames)?[\\d:]*",
+      "list(?:[wfrdx]|wf|g\\d*|geo|item|_dir)?",
+      "p(?:rintformat)?-?",
+      // other options:
+      "api|arg(?:s|format)|binary|charset|common_args|composite|config",
+      "coordformat|csvdelim|dateformat|decimal|delete_original|diff|duplicates",
+      "e[chx]|escape(?:c|html|xml)|exclude|forceprint|geotag|globaltimeshift",
+      "hex|htmlformat|ignore|ignoreminorerrors|lang|latin|long|nop|out",
+      "overwrite_original(?:_in_place)?|password|pause|php|plot|preserve",
+      "printconv|quiet|recurse|require|restore_original|scanforxmp",
+      "sep(?:arator)?|sort|srcfile|stay_open|struct|tab|table|tagoutext",
+      "unknown2?|use|userparam|ver|veryshort|wext|wm|writemode|xmlformat|zip",
+    ].join("|") +
+    ")$",
+  "is",
+);
+
+/**
+ * Throw if ExifTool would parse `-${arg}` as an option instead of as a tag.
+ */
+export function validateNotOption(arg: string, context = "tag name"): void {
+  if (OptionRE.test(arg)) {
+    throw new Error(
+      `Invalid ${context}: ${JSON.stringify("-" + arg)} is an ExifTool option.`,
+    );
+  }
+}
diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 10aa6b2..254c8ed 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -14,7 +14,7 @@ import { pick } from "./Pick";
 import { isString, splitLines } from "./String";
 import { isStruct } from "./Struct";
 import { TagEdit, validateTagEdits } from "./TagEdit";
-import { validateTagName } from "./TagNameValidation";
+import { validateNotOption, validateTagName } from "./TagNameValidation";
 import { WriteTags } from "./WriteTags";
 
 const sep = String.fromCharCode(31); // < unit separator
@@ -204,7 +204,9 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
     for (const key of keys(tags)) {
       validateTagName(key);
       const val = tags[key];
-      fieldsToSet.push(`-${key}=${enc(val)}`);
+      const arg = `${key}=${enc(val)}`;
+      validateNotOption(arg);
+      fieldsToSet.push("-" + arg);
     }
 
     return WriteTask.#forFields(filename, fieldsToSet, options);
-- 
2.43.0


From d4b5acbfa09e98fe3e334b6c22a936aab837976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:52 +0000
Subject: [PATCH 04/37] fix: don't add derived GPS tags to the object given to
 write()

---
 src/WriteTask.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 254c8ed..4e238ba 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -159,6 +159,10 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
     tags: WriteTags,
     options: Partial<WriteTaskOptions> & Required<ExifToolTaskOptions>,
   ): WriteTask {
+    // The reference tags below are derived from this call's values: don't leak
+    // them into the caller's object (it may be edited and written again).
+    tags = { ...tags };
+
     // Special handling for GPSLatitude and GPSLongitude (due to differences
     // in EXIF, XMP, and MIE encodings). See
     // https://exiftool.org/forum/index.php?topic=14488.0 and
-- 
2.43.0


From 7193b974a3cb112ff729f64ba016182f4fa0d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:34 +0000
Subject: [PATCH 05/37] fix: preserve leading white space and lists inside
 structures when writing tags

---
 src/WriteTask.ts | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 4e238ba..0c9bacc 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -45,28 +45,28 @@ function enc(
     // Structs need their own escaping here.
     // See https://exiftool.org/struct.html#Serialize
     const structurallyEscaped = structValue
-      ? (htmlDecodeLayers > 0 && /^\s/.test(o) ? "|" : "") +
+      ? (/^\s/.test(o) ? "|" : "") +
         o.replace(/[,[\]{}|]/g, (ea) => "|" + ea)
       : o;
     let entityProtected = structurallyEscaped;
     for (let i = 0; i < htmlDecodeLayers; i++) {
       entityProtected = entityProtected.replace(/&/g, "&#38;");
     }
-    if (
-      !structValue &&
-      htmlDecodeLayers > 0 &&
-      entityProtected.startsWith(" ")
-    ) {
+    // ExifTool drops one space after the "=" of an argument
+    if (!structValue && entityProtected.startsWith(" ")) {
       entityProtected = "&#32;" + entityProtected.slice(1);
     }
     return htmlEncode(entityProtected);
   } else if (isDateOrTime(o)) {
     return toExifString(o);
   } else if (Array.isArray(o)) {
-    const primitiveArray = o.every((ea) => isString(ea) || isNumber(ea));
-    return primitiveArray
-      ? `${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(sep)}`
-      : `[${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(",")}]`;
+    // lists are only split at `sep` outside of structures
+    const serialize =
+      o.length > 0 &&
+      (structValue || o.some((ea) => Array.isArray(ea) || isStruct(ea)));
+    return serialize
+      ? `[${o.map((ea) => enc(ea, true, htmlDecodeLayers)).join(",")}]`
+      : `${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(sep)}`;
   } else if (isStruct(o)) {
     // See https://exiftool.org/struct.html#Serialize
     return `{${keys(o)
-- 
2.43.0


From 419a3fdb385da080e510744763533474923447f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:54 +0000
Subject: [PATCH 06/37] fix: reject incompatible editTags writeArgs that have
 leading white space

---
 src/WriteTask.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 0c9bacc..2284fbf 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -225,7 +225,8 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
     options: Partial<WriteTaskOptions> & Required<ExifToolTaskOptions>,
   ): WriteTask {
     for (const arg of toArray(options.writeArgs)) {
-      if (/^-(?:api|sep)/i.test(arg)) {
+      // (ExifTool ignores leading white space in arguments)
+      if (/^\s*-(?:api|sep)/i.test(arg)) {
         throw new Error(
           `writeArgs argument is not compatible with exact tag edits: ${arg}`,
         );
-- 
2.43.0


From e3930b3a07a20d4edcd65ba6c8d4ea80c2b8e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:19 +0000
Subject: [PATCH 07/37] fix: honor the deprecated includeImageDataMD5 option

---
 src/ExifTool.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 677183d..08bccc8 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -249,10 +249,11 @@ export class ExifTool {
         "Please update caller to the new ExifTool constructor API",
       );
     }
-    const o = handleDeprecatedOptions({
+    const o = {
       ...DefaultExifToolOptions,
-      ...options,
-    });
+      // (must be before applying defaults, which includes imageHashType)
+      ...handleDeprecatedOptions({ ...options }),
+    };
 
     // Backward compatibility: if options.logger is provided, set it as the global logger
     const options_logger = options.logger;
@@ -381,7 +382,9 @@ export class ExifTool {
   ): Promise<T> {
     const opts = {
       ...pick(this.options, ...ReadTaskOptionFields),
-      ...(isObject(argsOrOptions) ? argsOrOptions : options),
+      ...handleDeprecatedOptions({
+        ...(isObject(argsOrOptions) ? argsOrOptions : options),
+      }),
     };
     opts.readArgs =
       ifArray(argsOrOptions) ?? ifArray(opts.readArgs) ?? this.options.readArgs;
-- 
2.43.0


From bc15e187700bfeba5ec403cb8efe27eec30eed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:03 +0000
Subject: [PATCH 08/37] fix: write extracted and repaired files to exactly the
 given destination

ExifTool expands format codes like %f in the -W and -out destinations
---
 src/BinaryExtractionTask.ts |  4 +++-
 src/File.ts                 | 34 +++++++++++++++++++++++++++++++++-
 src/RewriteAllTagsTask.ts   |  3 ++-
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/BinaryExtractionTask.ts b/src/BinaryExtractionTask.ts
index 35cec0d..7c82692 100644
--- a/src/BinaryExtractionTask.ts
+++ b/src/BinaryExtractionTask.ts
@@ -2,6 +2,7 @@ import { mkdirSync } from "node:fs";
 import path from "node:path";
 import { ExifToolOptions } from "./ExifToolOptions";
 import { ExifToolTask } from "./ExifToolTask";
+import { toLiteralDestination } from "./File";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
 import { Maybe } from "./Maybe";
 import { toS } from "./String";
@@ -40,6 +41,7 @@ export class BinaryExtractionTask extends ExifToolTask<Maybe<string>> {
   ): BinaryExtractionTask {
     validateTagName(tagname);
     validateNotOption(tagname);
+    const dest = toLiteralDestination(imgDest);
     // Ensure the destination directory exists:
     mkdirSync(path.dirname(imgDest), { recursive: true });
 
@@ -59,7 +61,7 @@ export class BinaryExtractionTask extends ExifToolTask<Maybe<string>> {
       // I also tried `-out` instead of `-W`, and that didn't work at least on
       // ExifTool 13.17.
       forceWrite ? "-W!" : "-W",
-      path.resolve(imgDest),
+      dest,
       path.resolve(imgSrc),
     ];
     return new BinaryExtractionTask(args, options);
diff --git a/src/File.ts b/src/File.ts
index 1df91eb..0297678 100644
--- a/src/File.ts
+++ b/src/File.ts
@@ -1,5 +1,5 @@
 import { stat } from "node:fs/promises";
-import { normalize } from "node:path";
+import { normalize, resolve } from "node:path";
 import { lazy } from "./Lazy";
 import { blank } from "./String";
 
@@ -49,3 +49,35 @@ export function compareFilePaths(a: string, b: string): boolean {
     ? aNorm === bNorm
     : aNorm.localeCompare(bNorm, undefined, { sensitivity: "base" }) === 0;
 }
+
+/**
+ * ExifTool treats these sequences as format codes in the destination of the
+ * `-W` and `-out` options, so they must be escaped.
+ * @see https://exiftool.org/exiftool_pod.html#w-EXT-or-FMT--textOut
+ */
+const FilenameFormatCodeRe = /%(?=[-+]?\d*[.:]?\d*[lu]?[dDfFeEtgso])/g;
+
+/**
+ * Copy number (`%c`) and sequence number (`%C`) codes are expanded in a later
+ * pass, so they cannot be escaped.
+ */
+const CopyNumberFormatCodeRe = /%[-+]?\d*[.:]?\d*[lun]?[cC]/;
+
+/**
+ * Encodes a destination path so that ExifTool's `-W` and `-out` options use it
+ * literally.
+ * @param dest - the destination file path
+ * @returns the absolute path, with ExifTool's filename format codes escaped
+ * @throws if the path contains a format code that cannot be escaped
+ */
+export function toLiteralDestination(dest: string): string {
+  const resolved = resolve(dest);
+  const m = CopyNumberFormatCodeRe.exec(resolved);
+  if (m != null) {
+    throw new Error(
+      `Unsupported destination ${JSON.stringify(dest)}: ExifTool would expand ${JSON.stringify(m[0])}`,
+    );
+  }
+  // `%0f` expands to an empty string, so "%" followed by "%0f" is a literal "%"
+  return resolved.replace(FilenameFormatCodeRe, "%%0f");
+}
diff --git a/src/RewriteAllTagsTask.ts b/src/RewriteAllTagsTask.ts
index 61a4d9d..3de861b 100644
--- a/src/RewriteAllTagsTask.ts
+++ b/src/RewriteAllTagsTask.ts
@@ -1,6 +1,7 @@
 import * as _path from "node:path";
 import { compact } from "./Array";
 import { ExifToolTask, ExifToolTaskOptions } from "./ExifToolTask";
+import { toLiteralDestination } from "./File";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
 
 /**
@@ -35,7 +36,7 @@ export class RewriteAllTagsTask extends ExifToolTask<void> {
       "-icc_profile",
       opts.allowMakerNoteRepair ? "-F" : undefined,
       "-out",
-      _path.resolve(imgDest),
+      toLiteralDestination(imgDest),
       _path.resolve(imgSrc),
     ]);
     return new RewriteAllTagsTask(args, opts);
-- 
2.43.0


From f196943f2851f32efb495d7f63d115607338ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:19 +0000
Subject: [PATCH 09/37] fix: honor the instance's forceWrite option when
 extracting binary tags

---
 src/ExifTool.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 08bccc8..ad257b8 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -712,6 +712,7 @@ export class ExifTool {
     const maybeError = await this.enqueueTask(() =>
       BinaryExtractionTask.for(tagname, src, dest, {
         ...this.#taskOptions(),
+        ...pick(this.options, "forceWrite"),
         ...opts,
       }),
     );
-- 
2.43.0


From 877f9c68a522fe4cab67ed1d8d7265ec644675a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:02 +0000
Subject: [PATCH 10/37] fix: count files exactly when ExifTool reports 100000
 or more of them

---
 src/WriteTask.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 2284fbf..5d43901 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -337,10 +337,10 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
 }
 
 // "0 files created" | "0 file created" | "    1 image files created"
-const CreatedRE = /(?<count>\d{1,5}) [\w ]{1,12}\bcreated$/i;
+const CreatedRE = /(?<count>\d{1,15}) [\w ]{1,12}\bcreated$/i;
 
 const UnchangedRE =
-  /(?<count>\d{1,5}) [\w ]{1,12}\b(?:weren't updated|unchanged)$/i;
+  /(?<count>\d{1,15}) [\w ]{1,12}\b(?:weren't updated|unchanged)$/i;
 
 // "1 image files updated"
-const UpdatedRE = /(?<count>\d{1,5}) [\w ]{1,12}\bupdated$/i;
+const UpdatedRE = /(?<count>\d{1,15}) [\w ]{1,12}\bupdated$/i;
-- 
2.43.0


From 261d4fa40dfaeb630cda2d29e41cbc8a80e16737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 11/37] fix: keep tags whose names are also properties of
 Object.prototype

---
 src/ReadTask.ts | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index ef78917..471b26e 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -218,7 +218,7 @@ export class ReadTask extends ExifToolTask<Tags> {
       this.#rawDegrouped = {};
       for (const [key, value] of Object.entries(this.#raw)) {
         const k = this.#tagName(key);
-        this.#rawDegrouped[k] = value;
+        setOwn(this.#rawDegrouped, k, value);
       }
     } else {
       this.#rawDegrouped = this.#raw;
@@ -241,14 +241,14 @@ export class ReadTask extends ExifToolTask<Tags> {
     for (const [key, value] of Object.entries(this.#raw)) {
       const k = this.#tagName(key);
       // Did something already set this? (like GPS tags)
-      if (key in tags) continue;
+      if (Object.hasOwn(tags, key)) continue;
       const v = this.#parseTag(k, value);
       // Note that we set `key` (which may include a group prefix):
       if (v == null) {
         // Use Reflect.deleteProperty for dynamic keys
         Reflect.deleteProperty(tags, key);
       } else {
-        tags[key] = v;
+        setOwn(tags, key, v);
       }
     }
 
@@ -387,7 +387,7 @@ export class ReadTask extends ExifToolTask<Tags> {
       if (isObject(value)) {
         const result: Record<string, unknown> = {};
         for (const [k, v] of Object.entries(value)) {
-          result[k] = this.#parseTag(tagName + "." + k, v);
+          setOwn(result, k, this.#parseTag(tagName + "." + k, v));
         }
         return result;
       }
@@ -459,6 +459,16 @@ export class ReadTask extends ExifToolTask<Tags> {
   }
 }
 
+/** Assignment would invoke Object.prototype.__proto__'s setter. */
+function setOwn(obj: Record<string, unknown>, key: string, value: unknown) {
+  Object.defineProperty(obj, key, {
+    configurable: true,
+    enumerable: true,
+    value,
+    writable: true,
+  });
+}
+
 function isUtcTagName(tagName: string): boolean {
   return tagName.includes("UTC") || tagName.startsWith("GPS");
 }
-- 
2.43.0


From ca2072343f35b0b9be149c115fd661eeec64969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 12/37] fix: don't fail reads of values that can't be converted
 to a string

---
 src/ExifDateTime.ts | 4 ++--
 src/ReadTask.ts     | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index e7d2fd7..dd1efa9 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -124,7 +124,7 @@ export class ExifDateTime {
     text: unknown,
     defaultZone?: Maybe<string>,
   ): Maybe<ExifDateTime> {
-    if (blank(text) || !isString(text)) return undefined;
+    if (!isString(text) || blank(text)) return undefined;
     return (
       this.#fromPatterns(
         text,
@@ -161,7 +161,7 @@ export class ExifDateTime {
     text: unknown,
     defaultZone?: Maybe<string>,
   ): Maybe<ExifDateTime> {
-    return blank(text) || !isString(text)
+    return !isString(text) || blank(text)
       ? undefined
       : this.#fromPatterns(text, this.#looseExifFormats(defaultZone));
   }
diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index 471b26e..5bdf8de 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -202,7 +202,8 @@ export class ReadTask extends ExifToolTask<Tags> {
   }
 
   #isVideo(): boolean {
-    return String(this.#rawDegrouped?.MIMEType).startsWith("video/");
+    const mimeType = this.#rawDegrouped?.MIMEType;
+    return isString(mimeType) && mimeType.startsWith("video/");
   }
 
   #defaultToUTC(): boolean {
-- 
2.43.0


From b6c73ae46233c4ea6a26ea9767bd62c973d0c010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 13/37] fix: parse dates independently of today's date and of
 the system timezone

---
 src/ExifDate.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ExifDate.ts b/src/ExifDate.ts
index 05a284b..c637e1a 100644
--- a/src/ExifDate.ts
+++ b/src/ExifDate.ts
@@ -31,6 +31,7 @@ export interface ExifDateFull extends ExifDateYearMonth {
 export type ExifDatePartial = ExifDateYearOnly | ExifDateYearMonth;
 
 const StrictExifRE = /^\d{1,4}:\d{1,2}:\d{1,2}|\d{1,4}-\d{1,2}-\d{1,2}$/;
+const IsoDateRE = /\d{1,4}-\d{1,2}-\d{1,2}$/;
 const YearMonthRE = /^\d{1,4}[:-]\d{1,2}$/;
 const YearOnlyRE = /^\d{1,4}$/;
 const LooseExifRE = /^\S+\s+\S+\s+\S+$/;
@@ -53,8 +54,9 @@ export class ExifDate {
     );
   }
   static fromISO(text: string): Maybe<ExifDate> {
-    return StrictExifRE.test(toS(text).trim())
-      ? this.fromDateTime(DateTime.fromISO(text), text)
+    // Luxon parses a time without a date, like "11:30:00", as _today_.
+    return IsoDateRE.test(toS(text).trim())
+      ? this.fromDateTime(DateTime.fromISO(text, { zone: "utc" }), text)
       : undefined;
   }
 
@@ -62,7 +64,7 @@ export class ExifDate {
     if (blank(text)) return;
     text = toS(text).trim();
     for (const fmt of fmts) {
-      const dt = DateTime.fromFormat(text, fmt);
+      const dt = DateTime.fromFormat(text, fmt, { zone: "utc" });
       if (validDateTime(dt)) {
         return this.fromDateTime(dt, text);
       }
@@ -87,7 +89,7 @@ export class ExifDate {
     if (!YearMonthRE.test(textStr)) return undefined;
 
     for (const fmt of ["y:MM", "y-MM", "y:M", "y-M"]) {
-      const dt = DateTime.fromFormat(textStr, fmt);
+      const dt = DateTime.fromFormat(textStr, fmt, { zone: "utc" });
       if (validDateTime(dt)) {
         return new ExifDate(dt.year, dt.month, undefined, textStr);
       }
-- 
2.43.0


From 3e1414f3aedf9eef5a87b14923bb1e988cc979c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 14/37] fix: only extract valid timezone offsets from the end
 of the text

---
 src/Timezones.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 7180b4a..b29f189 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -809,7 +809,7 @@ function tzHourToOffset(n: unknown): Maybe<string> {
 // "+02:00", and "+0200" (ISO 8601 basic format). Also accepts seconds like
 // "-00:25:21" for archaic offsets. Handles Unicode minus (−, U+2212).
 const tzRe =
-  /(?<Z>Z)|((UTC)?(?<sign>[+−-])(?<hours>\d\d?)(?::?(?<minutes>\d\d)(?::(?<seconds>\d\d))?)?)$/;
+  /(?:(?<Z>(?<![A-Za-z])Z)|((UTC)?(?<sign>[+−-])(?<hours>\d\d?)(?::?(?<minutes>[0-5]\d)(?::(?<seconds>[0-5]\d))?)?))$/;
 
 export interface TzSrc {
   /**
-- 
2.43.0


From ab747724532bb881838dd8a950451c7ac45399a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 15/37] fix: treat a blank default zone as no default zone

---
 src/TimeParsing.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeParsing.ts b/src/TimeParsing.ts
index 3ba4fd9..cabea89 100644
--- a/src/TimeParsing.ts
+++ b/src/TimeParsing.ts
@@ -27,7 +27,7 @@ export function* timeFormats(args: {
     for (const timeFmt of TimeFmts) {
       yield {
         fmt: prefix + timeFmt.fmt,
-        zone: args.defaultZone,
+        zone: inferredZone ? args.defaultZone : undefined,
         unsetMilliseconds: timeFmt.unsetMilliseconds,
         inferredZone,
       };
-- 
2.43.0


From f0797bc6737fa73398fdff8f5145ccbf02073f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 16/37] fix: don't let the system timezone's DST rules change
 zoneless timestamps

---
 src/ExifDateTime.ts | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index dd1efa9..4c70b5f 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -275,7 +275,9 @@ export class ExifDateTime {
   ): Maybe<ExifDateTime> {
     const dt = setZone({
       zone,
-      src: this.toDateTime(),
+      // keepLocalTime defaults to true if there isn't a zone yet:
+      src:
+        opts?.keepLocalTime === false ? this.toDateTime() : this.#wallTime(),
       srcHasZone: this.hasZone,
       opts,
     });
@@ -325,9 +327,17 @@ export class ExifDateTime {
     return this.toDateTime().toJSDate();
   }
 
+  /**
+   * The date and time fields as they are, unaffected by the gaps and overlaps
+   * of the system timezone if this instance has an unset zone.
+   */
+  #wallTime(): DateTime {
+    return this.toDateTime(this.hasZone ? undefined : "UTC");
+  }
+
   toISOString(options: ToISOTimeOptions = {}): Maybe<string> {
     return denull(
-      this.toDateTime().toISO({
+      this.#wallTime().toISO({
         suppressMilliseconds:
           options.suppressMilliseconds ?? this.millisecond == null,
         includeOffset: this.hasZone && options.includeOffset !== false,
@@ -336,7 +346,7 @@ export class ExifDateTime {
   }
 
   toExifString() {
-    return dateTimeToExif(this.toDateTime(), {
+    return dateTimeToExif(this.#wallTime(), {
       includeOffset: this.hasZone,
       includeMilliseconds: this.millisecond != null,
     });
@@ -423,7 +433,7 @@ export class ExifDateTime {
   }
 
   plus(duration: DurationLike) {
-    let dt = this.toDateTime().plus(duration);
+    let dt = this.#wallTime().plus(duration);
     if (!this.hasZone) {
       dt = dt.setZone(UnsetZone, { keepLocalTime: true });
     }
-- 
2.43.0


From cc07f46ce2e62bc2d2cf2ca222f09c8de7df16b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 17/37] fix: leave JSON objects whose _ctor isn't one of our
 types alone

---
 src/JSON.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/JSON.ts b/src/JSON.ts
index 695fd3a..2360e1b 100644
--- a/src/JSON.ts
+++ b/src/JSON.ts
@@ -42,7 +42,8 @@ export function parseJSON(s: string) {
       typeof value === "object" &&
       value !== null &&
       "_ctor" in value &&
-      typeof value._ctor === "string"
+      typeof value._ctor === "string" &&
+      Object.hasOwn(Revivers, value._ctor)
     ) {
       return Revivers[value._ctor]?.(value as JsonObject) ?? value;
     }
-- 
2.43.0


From cb16fb30fce8a48a0065fc8502f9f4427aa4b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 18/37] fix: don't infer unsupported offsets, or offsets from
 zoneless timestamps

---
 src/Timezones.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index b29f189..d9e9925 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -1124,7 +1124,8 @@ export function extractTzOffsetFromTags(
     // UGH. See https://github.com/photostructure/exiftool-vendored.js/issues/215
     const minutes = adjustFn(t, offset.tz);
     if (minutes != null) {
-      const adjustedZone = incrementZone(offset.tz, minutes);
+      // The adjustment may not result in a valid offset:
+      const adjustedZone = normalizeZone(incrementZone(offset.tz, minutes));
       if (adjustedZone != null)
         return {
           zone: adjustedZone.name,
@@ -1184,6 +1185,8 @@ export function extractTzOffsetFromTimeStamp(
     if (ea.zone != null) {
       return { zone: ea.zone, tz: ea.zone, src: tagName };
     }
+    // If TimeStamp doesn't have a zone, we don't know what instant it refers to
+    if (!ts.hasZone) continue;
     const deltaMinutes = Math.floor(
       (ea.toEpochSeconds("UTC") - ts.toEpochSeconds()) / 60,
     );
-- 
2.43.0


From 6ecac7c1c801bc02d9129db54b8b70fb86a1ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 19/37] fix: accept all IANA zone names, and only zone names

---
 src/Timezones.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index d9e9925..3689111 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -431,8 +431,11 @@ export const defaultVideosToUTC = "defaultVideosToUTC";
 
 // https://en.wikipedia.org/wiki/List_of_tz_database_time_zones -- note that
 // "WET" and "W-SU" are full TZs (!!!), and "America/Indiana/Indianapolis" is
-// also a thing.
-const IanaFormatRE = /^\w{2,15}(?:\/\w{3,15}){0,2}$/;
+// also a thing, as are "America/Port-au-Prince" and "Etc/GMT+5".
+const IanaFormatRE = /^\w[\w-]{1,14}(?:\/[\w+-]{3,15}){0,2}$/;
+
+// Luxon's aliases for the zone of the current system aren't zone names.
+const SystemZoneRE = /^(?:local|system|default)$/i;
 
 /**
  * Regex for parsing timezone offset strings.
@@ -683,7 +686,7 @@ export function normalizeZone(input: unknown): Maybe<Zone> {
         return Info.normalizeZone(fixed);
       }
 
-      if (!IanaFormatRE.test(s)) {
+      if (!IanaFormatRE.test(s) || SystemZoneRE.test(s)) {
         return;
       }
     }
-- 
2.43.0


From 9b8ae62d46751dfbdef5a010681bab31b1cc12c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 20/37] fix: notify all Setting listeners even if one of them
 throws

---
 src/Settings.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Settings.ts b/src/Settings.ts
index 7b572ab..03239ef 100644
--- a/src/Settings.ts
+++ b/src/Settings.ts
@@ -32,7 +32,14 @@ export class Setting<T> {
       const old = this.#value;
       this.#value = newValue;
       for (const ea of this.#listeners) {
-        ea(old, newValue);
+        try {
+          ea(old, newValue);
+        } catch (error) {
+          // don't let one listener prevent other listeners from being notified
+          Settings.logger.value().error("Setting.onChange(): listener failed", {
+            error,
+          });
+        }
       }
     }
   }
-- 
2.43.0


From 9cfbcae739ebc557930d0c930bf139a5e152f2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 21/37] fix: accept comma-separated degree and degree-minute
 positions

---
 src/CoordinateParser.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CoordinateParser.ts b/src/CoordinateParser.ts
index 945897f..ce7eed0 100644
--- a/src/CoordinateParser.ts
+++ b/src/CoordinateParser.ts
@@ -169,9 +169,9 @@ export function parseCoordinate(
   const dmsPattern =
     /^(?<degrees>-?\d+)\s*(?:°|DEG)\s*(?<minutes>\d+)\s*['′]\s*(?<seconds>\d+(?:\.\d+)?)\s*["″]\s?(?<direction>[NSEW])?[\s,]{0,3}(?<remainder>.*)$/i;
   const dmPattern =
-    /^(?<degrees>-?\d+)\s*(?:°|DEG)\s*(?<minutes>\d+(?:\.\d+)?)\s?['′]\s?(?<direction>[NSEW])?(?<remainder>.*)$/i;
+    /^(?<degrees>-?\d+)\s*(?:°|DEG)\s*(?<minutes>\d+(?:\.\d+)?)\s?['′]\s?(?<direction>[NSEW])?[\s,]{0,3}(?<remainder>.*)$/i;
   const dPattern =
-    /^(?<degrees>-?\d+(?:\.\d+)?)\s*(?:°|DEG)\s?(?<direction>[NSEW])?(?<remainder>.*)$/i;
+    /^(?<degrees>-?\d+(?:\.\d+)?)\s*(?:°|DEG)\s?(?<direction>[NSEW])?[\s,]{0,3}(?<remainder>.*)$/i;
 
   const trimmedInput = input.trimStart();
 
-- 
2.43.0


From c7cbdec683fdefaf880d5d28dee7957881ce96b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:13 +0000
Subject: [PATCH 22/37] fix: keep the sign of coordinates with zero degrees

---
 src/CoordinateParser.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CoordinateParser.ts b/src/CoordinateParser.ts
index ce7eed0..e31ace6 100644
--- a/src/CoordinateParser.ts
+++ b/src/CoordinateParser.ts
@@ -275,13 +275,14 @@ export function parseCoordinate(
 
 function toDecimalDegrees(coord: Omit<Coordinate, "decimal">): number {
   const degrees = toFloat(coord.degrees) ?? 0;
-  const sign = Math.sign(degrees);
+  // "-0° 30'" is negative:
+  const negative = degrees < 0 || Object.is(degrees, -0);
   let decimal = Math.abs(degrees);
 
   decimal += Math.abs(toFloat(coord.minutes) ?? 0) / 60.0;
   decimal += Math.abs(toFloat(coord.seconds) ?? 0) / 3600.0;
 
-  if (coord.direction === "S" || coord.direction === "W" || sign < 0) {
+  if (coord.direction === "S" || coord.direction === "W" || negative) {
     decimal = -decimal;
   }
 
-- 
2.43.0


From b61ee86d6a6202601e70016be4998f8bb072cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:17 +0000
Subject: [PATCH 23/37] fix: don't flip coordinates that are already next to
 GeolocationPosition

---
 src/CoordinateParser.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CoordinateParser.ts b/src/CoordinateParser.ts
index e31ace6..7ba16c1 100644
--- a/src/CoordinateParser.ts
+++ b/src/CoordinateParser.ts
@@ -371,7 +371,9 @@ export function processCoordinate(
     geoValue != null &&
     Math.abs(Math.abs(geoValue) - Math.abs(value)) < MAX_LAT_LON_DIFF
   ) {
-    if (Math.sign(geoValue) !== Math.sign(value)) {
+    // If the coordinate is already near, they may just be on different sides of
+    // the equator or prime meridian.
+    if (Math.abs(geoValue - value) >= MAX_LAT_LON_DIFF) {
       value = -value;
       warnings.push(
         `Corrected GPS${coordinateType} sign based on GeolocationPosition`,
@@ -379,8 +381,7 @@ export function processCoordinate(
     }
 
     // Force ref to correct value
-    const expectedRef =
-      geoValue < 0 ? expectedRefNegative : expectedRefPositive;
+    const expectedRef = value < 0 ? expectedRefNegative : expectedRefPositive;
     if (ref !== expectedRef) {
       ref = expectedRef;
       if (!blank(config.ref)) {
-- 
2.43.0


From 065d34cdd8a44492eb5c854838f7b2d5c836cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:23 +0000
Subject: [PATCH 24/37] fix: decode numeric entities in tag descriptions

---
 src/TagDescriptions.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index cc12083..6ace0b4 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -584,6 +584,7 @@ export class TagDescriptions {
       .replace(/&gt;/g, ">")
       .replace(/&quot;/g, '"')
       .replace(/&apos;/g, "'")
+      .replace(/&#(\d+);/g, (_, code) => String.fromCodePoint(Number(code)))
       .replace(/&amp;/g, "&");
   }
 }
-- 
2.43.0


From e839837a00528769a495d06e3ebb99c3c5410b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:28 +0000
Subject: [PATCH 25/37] fix: don't find Object.prototype properties as curated
 tag descriptions

---
 src/TagDescriptions.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index 6ace0b4..9610ed5 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -404,6 +404,11 @@ export class TagDescriptions {
     return this.#options.language === "en" ? CuratedDescriptions : {};
   }
 
+  #getCurated(tagName: string): Maybe<TagDescription> {
+    const curated = this.#curated;
+    return Object.hasOwn(curated, tagName) ? curated[tagName] : undefined;
+  }
+
   /**
    * Synchronous lookup of a tag description.
    * Returns undefined if descriptions haven't been loaded or tag is unknown.
@@ -414,7 +419,7 @@ export class TagDescriptions {
    * @returns Tag description or undefined
    */
   get(tagName: string): TagDescription | undefined {
-    return this.#curated[tagName] ?? this.#cacheSync?.get(tagName);
+    return this.#getCurated(tagName) ?? this.#cacheSync?.get(tagName);
   }
 
   /**
@@ -425,7 +430,7 @@ export class TagDescriptions {
    * @returns Promise resolving to tag description or undefined
    */
   async getAsync(tagName: string): Promise<TagDescription | undefined> {
-    return this.#curated[tagName] ?? (await this.#cache()).get(tagName);
+    return this.#getCurated(tagName) ?? (await this.#cache()).get(tagName);
   }
 
   /**
-- 
2.43.0


From 761f334b5628de0621215c3ef3f4b84b469bebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:32 +0000
Subject: [PATCH 26/37] fix: reject incomplete -listx output

---
 src/ListXTask.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ListXTask.ts b/src/ListXTask.ts
index 6f39558..fb042b9 100644
--- a/src/ListXTask.ts
+++ b/src/ListXTask.ts
@@ -13,7 +13,10 @@ export class ListXTask extends ExifToolTask<string> {
     super(["-listx"], options);
   }
 
-  protected parse(input: string): string {
+  protected parse(input: string, error?: Error): string {
+    if (!input.trimEnd().endsWith("</taginfo>")) {
+      throw error ?? new Error("Incomplete tag information");
+    }
     // Return raw XML - parsing is handled by TagDescriptions
     return input;
   }
-- 
2.43.0


From 0568207201f83095ddbb55c28914ef06176d8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:37 +0000
Subject: [PATCH 27/37] fix: retry failed tag description loads, and don't let
 clear() be undone by one

---
 src/TagDescriptions.ts | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index 9610ed5..0d0461a 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -2,7 +2,6 @@ import { existsSync, mkdirSync, readFileSync, writeFileSync } from "node:fs";
 import { tmpdir } from "node:os";
 import { join } from "node:path";
 import type { ExifTool } from "./ExifTool";
-import { lazy } from "./Lazy";
 import { ListXTask } from "./ListXTask";
 import { Maybe } from "./Maybe";
 
@@ -362,13 +361,14 @@ export class TagDescriptions {
   readonly #options: TagDescriptionsOptions;
   // Cached value for sync access via get()
   #cacheSync: Map<string, TagDescription> | null = null;
+  #loading: Maybe<Promise<Map<string, TagDescription>>>;
 
   constructor(exiftool: ExifTool, options?: TagDescriptionsOptions) {
     this.#exiftool = exiftool;
     this.#options = {
-      language: "en",
       disableDiskCache: false,
       ...options,
+      language: options?.language ?? "en",
     };
   }
 
@@ -449,10 +449,28 @@ export class TagDescriptions {
    */
   clear(): void {
     this.#cacheSync = null;
-    this.#cache.clear();
+    this.#loading = undefined;
   }
 
-  readonly #cache = lazy(async (): Promise<Map<string, TagDescription>> => {
+  #cache(): Promise<Map<string, TagDescription>> {
+    if (this.#loading == null) {
+      const loading = this.#load();
+      this.#loading = loading;
+      // Ignore the result if clear() was called in the meantime, and don't hold
+      // onto failures: the next lookup should try again.
+      loading.then(
+        (descriptions) => {
+          if (this.#loading === loading) this.#cacheSync = descriptions;
+        },
+        () => {
+          if (this.#loading === loading) this.#loading = undefined;
+        },
+      );
+    }
+    return this.#loading;
+  }
+
+  async #load(): Promise<Map<string, TagDescription>> {
     // Get ExifTool version for cache key
     const version = await this.#exiftool.version();
     const lang = this.#options.language ?? "en";
@@ -460,10 +478,7 @@ export class TagDescriptions {
     // Try to load from disk cache first
     if (!this.#options.disableDiskCache) {
       const cached = this.#readDiskCache(version, lang);
-      if (cached != null) {
-        this.#cacheSync = cached;
-        return cached;
-      }
+      if (cached != null) return cached;
     }
 
     // Query ExifTool for tag information
@@ -482,9 +497,8 @@ export class TagDescriptions {
       this.#writeDiskCache(version, lang, parsed);
     }
 
-    this.#cacheSync = parsed;
     return parsed;
-  });
+  }
 
   #getCacheDir(): string {
     return this.#options.cacheDir ?? join(tmpdir(), "exiftool-vendored");
-- 
2.43.0


From c51e874c06de9c95667fc2cacb3fc31cddd779e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:42 +0000
Subject: [PATCH 28/37] fix: ignore damaged tag description cache files

---
 src/TagDescriptions.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index 0d0461a..b77ed4a 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -531,7 +531,11 @@ export class TagDescriptions {
         return;
       }
 
-      return new Map(Object.entries(parsed.descriptions));
+      const result = new Map(Object.entries(parsed.descriptions));
+      for (const ea of result.values()) {
+        if (typeof ea.desc !== "string") return;
+      }
+      return result.size === 0 ? undefined : result;
     } catch {
       // Cache miss or corrupt - will regenerate
       return;
-- 
2.43.0


From edec659522d503608c35fab95a17cf3624fe236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:46 +0000
Subject: [PATCH 29/37] fix: EXIF-formatted years have four digits

---
 src/DateTime.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DateTime.ts b/src/DateTime.ts
index 1bb34ad..0964bc6 100644
--- a/src/DateTime.ts
+++ b/src/DateTime.ts
@@ -30,7 +30,7 @@ export function dateTimeToExif(
   opts?: { includeOffset?: boolean; includeMilliseconds?: boolean },
 ): string {
   return d.toFormat(
-    "y:MM:dd HH:mm:ss" +
+    "yyyy:MM:dd HH:mm:ss" +
       (opts?.includeMilliseconds === true ? ".u" : "") +
       (opts?.includeOffset === false ? "" : "ZZ"),
   );
-- 
2.43.0


From 7c5d431291033836a131c83a95cc6ba001494514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:50 +0000
Subject: [PATCH 30/37] fix: ExifDate.toDate() of the first century, and
 toMillis() is UTC as documented

---
 src/ExifDate.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ExifDate.ts b/src/ExifDate.ts
index c637e1a..27f9181 100644
--- a/src/ExifDate.ts
+++ b/src/ExifDate.ts
@@ -137,7 +137,10 @@ export class ExifDate {
   ) {}
 
   toDate(): Date {
-    return new Date(this.year, (this.month ?? 1) - 1, this.day ?? 1);
+    const result = new Date(2000, 0);
+    // (the Date constructor considers years before 100 to be in the 1900s)
+    result.setFullYear(this.year, (this.month ?? 1) - 1, this.day ?? 1);
+    return result;
   }
 
   /**
@@ -146,7 +149,10 @@ export class ExifDate {
    * @return the epoch milliseconds for this day in UTC, plus `deltaMs` milliseconds.
    */
   toMillis(deltaMs = 12 * HourMs) {
-    return this.toDate().getTime() + deltaMs;
+    return (
+      DateTime.utc(this.year, this.month ?? 1, this.day ?? 1).toMillis() +
+      deltaMs
+    );
   }
 
   toISOString(): string {
-- 
2.43.0


From cd4eafd39264239f7cc0814ebf03ffee12cf7a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:55 +0000
Subject: [PATCH 31/37] fix: keep the offset of timestamps in a repeated hour

---
 src/ExifDateTime.ts | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index 4c70b5f..835bdee 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -3,6 +3,7 @@ import {
   DateTime,
   DateTimeJSOptions,
   DurationLike,
+  FixedOffsetZone,
   ToISOTimeOptions,
   Zone,
   ZoneOptions,
@@ -276,8 +277,7 @@ export class ExifDateTime {
     const dt = setZone({
       zone,
       // keepLocalTime defaults to true if there isn't a zone yet:
-      src:
-        opts?.keepLocalTime === false ? this.toDateTime() : this.#wallTime(),
+      src: opts?.keepLocalTime === false ? this.toDateTime() : this.#wallTime(),
       srcHasZone: this.hasZone,
       opts,
     });
@@ -313,10 +313,24 @@ export class ExifDateTime {
     }
 
     // Cache the DateTime for performance
-    return (this.#dt ??= DateTime.fromObject(this.toDateTimeObject(), {
+    if (this.#dt == null) {
+      const obj = this.toDateTimeObject();
       // Convert zone name string to Zone object so Luxon can recognize it
-      zone: normalizeZone(this.zone) ?? this.zone,
-    }));
+      const zone = normalizeZone(this.zone) ?? this.zone;
+      // The hour at the end of daylight saving time happens twice: only the
+      // offset says which one this is.
+      const dt =
+        this.hasZone && this.tzoffsetMinutes != null
+          ? DateTime.fromObject(obj, {
+              zone: FixedOffsetZone.instance(this.tzoffsetMinutes),
+            }).setZone(zone)
+          : undefined;
+      this.#dt =
+        dt?.isValid === true && dt.offset === this.tzoffsetMinutes
+          ? dt
+          : DateTime.fromObject(obj, { zone });
+    }
+    return this.#dt;
   }
 
   toEpochSeconds(overrideZone?: Maybe<string>) {
-- 
2.43.0


From c52a24c225651c21c00771ae42cd784b1e8e9ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:00 +0000
Subject: [PATCH 32/37] fix: ExifDateTime.fromMillis() changed the caller's
 options

---
 src/ExifDateTime.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index 835bdee..973f57f 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -217,7 +217,8 @@ export class ExifDateTime {
       options.zone == null ||
       [UnsetZoneName, UnsetZone].includes(options.zone)
     ) {
-      delete options.zone;
+      // don't change the caller's object
+      options = omit(options, "zone");
     }
     let dt = DateTime.fromMillis(millis, {
       ...omit(options, "rawValue"),
-- 
2.43.0


From cd71c9a28a6087e0bac200dc988253146359a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:05 +0000
Subject: [PATCH 33/37] fix: ExifTime.setZone() kept the old zone, and moved
 zoneless times by DST

---
 src/ExifTime.ts | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/ExifTime.ts b/src/ExifTime.ts
index 491e734..867f7fb 100644
--- a/src/ExifTime.ts
+++ b/src/ExifTime.ts
@@ -62,17 +62,18 @@ export class ExifTime {
   }
 
   toDateTime(): DateTime {
-    return (this.#dt ??= DateTime.fromObject(
-      {
-        hour: this.hour,
-        minute: this.minute,
-        second: this.second,
-        millisecond: this.millisecond,
-      },
-      {
-        zone: this.zone,
-      },
-    ));
+    return (this.#dt ??= DateTime.fromObject(this.#units(), {
+      zone: this.zone,
+    }));
+  }
+
+  #units() {
+    return {
+      hour: this.hour,
+      minute: this.minute,
+      second: this.second,
+      millisecond: this.millisecond,
+    };
   }
 
   /**
@@ -113,14 +114,18 @@ export class ExifTime {
   setZone(zone: string | Zone, opts?: ZoneOptions): Maybe<ExifTime> {
     const dt = setZone({
       zone,
-      src: this.toDateTime(),
+      // don't let the DST rules of the system timezone change a zoneless time
+      src:
+        this.hasZone || opts?.keepLocalTime === false
+          ? this.toDateTime()
+          : DateTime.fromObject(this.#units(), { zone: "UTC" }),
       srcHasZone: this.hasZone,
       opts,
     });
     return ExifTime.fromDateTime(
       dt,
       this.rawValue,
-      this.zone,
+      getZoneName({ zone: dt.zone }),
       this.inferredZone,
       this.millisecond == null,
     );
-- 
2.43.0


From f6434bcb7d7a5bc0897ec8995b5b29022137ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:25 +0000
Subject: [PATCH 34/37] fix: rewriteAllTags() ignored errors that mention a
 warning

---
 src/RewriteAllTagsTask.ts | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/RewriteAllTagsTask.ts b/src/RewriteAllTagsTask.ts
index 3de861b..e5c0d68 100644
--- a/src/RewriteAllTagsTask.ts
+++ b/src/RewriteAllTagsTask.ts
@@ -43,19 +43,11 @@ export class RewriteAllTagsTask extends ExifToolTask<void> {
   }
 
   parse(data: string, error?: Error): void {
-    if (error != null) {
-      const str = String(error);
-      // Ignore warnings:
-      if (str.match(/\berror\b/i) != null && !str.match(/\bwarning\b/i)) {
-        throw error;
-      }
-    }
+    // (warnings aren't considered errors)
+    if (error != null) throw error;
     if (null == data.match(/^\s*1 image files creat/i)) {
-      throw (
-        error ??
-        new Error(
-          data.trim().split("\n")[0] ?? "Missing expected status message",
-        )
+      throw new Error(
+        data.trim().split("\n")[0] ?? "Missing expected status message",
       );
     }
   }
-- 
2.43.0


From 0ed3dabff68201c11b7f2662fa43973a78d19b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:39 +0000
Subject: [PATCH 35/37] fix: inferring the zone from TimeStamp rounded the
 distance down to whole minutes

---
 src/Timezones.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 3689111..e6fe416 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -1190,9 +1190,8 @@ export function extractTzOffsetFromTimeStamp(
     }
     // If TimeStamp doesn't have a zone, we don't know what instant it refers to
     if (!ts.hasZone) continue;
-    const deltaMinutes = Math.floor(
-      (ea.toEpochSeconds("UTC") - ts.toEpochSeconds()) / 60,
-    );
+    // Don't round to whole minutes: that would make the tolerance asymmetric.
+    const deltaMinutes = (ea.toEpochSeconds("UTC") - ts.toEpochSeconds()) / 60;
     const likelyOffsetZone = inferLikelyOffsetMinutes(deltaMinutes);
     const zone = offsetMinutesToZoneName(likelyOffsetZone);
     if (zone != null) {
-- 
2.43.0


From f17860e5ae3c1534f3745f4e0fd33f32d418b63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:39 +0000
Subject: [PATCH 36/37] fix: a failed exiftoolPath lookup was remembered
 forever

---
 src/ExifTool.ts | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index ad257b8..669bc01 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -300,10 +300,16 @@ export class ExifTool {
   }
 
   readonly exiftoolPath = lazy<Promise<string>>(async () => {
-    const o = await this.options.exiftoolPath;
-    if (isString(o) && notBlank(o)) return o;
-    if (isFunction(o)) return o(this.options.logger());
-    return exiftoolPath(this.options.logger());
+    try {
+      const o = await this.options.exiftoolPath;
+      if (isString(o) && notBlank(o)) return o;
+      if (isFunction(o)) return await o(this.options.logger());
+      return await exiftoolPath(this.options.logger());
+    } catch (error) {
+      // Don't remember failures: the next spawn should try again.
+      this.exiftoolPath.clear();
+      throw error;
+    }
   });
 
   #taskOptions = lazy(() => pick(this.options, "ignoreMinorErrors"));
-- 
2.43.0


From 425ac5a7444547ca55f9725207e7a3d7324ae4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:41 +0000
Subject: [PATCH 37/37] fix: which() ignores directories

A directory is normally "executable", so a directory named perl or exiftool in an early PATH entry hid the program in a later one.
---
 src/Which.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Which.ts b/src/Which.ts
index c5eff63..ae93ede 100644
--- a/src/Which.ts
+++ b/src/Which.ts
@@ -1,5 +1,5 @@
 import { constants, existsSync } from "node:fs";
-import { access } from "node:fs/promises";
+import { access, stat } from "node:fs/promises";
 import { basename, delimiter, isAbsolute, join } from "node:path";
 import { env } from "node:process";
 import { isWin32 } from "./IsWin32";
@@ -24,7 +24,8 @@ async function canRX(fullpath: string): Promise<boolean> {
   if (isWin32()) return existsSync(fullpath);
   try {
     await access(fullpath, constants.R_OK | constants.X_OK);
-    return true;
+    // Directories are normally "executable" (searchable), too:
+    return (await stat(fullpath)).isFile();
   } catch {
     return false;
   }
-- 
2.43.0

