#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/mkprops.py)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

p("C01","Every call receives exactly the answer ExifTool produced for that call",
 "Whatever the number of concurrent calls and child processes, and however a child's output is split into chunks or interleaved with other children's output, each API call resolves with the complete, unmodified answer that ExifTool emitted for that call's own command (or rejects with that command's own error), never with another call's answer, a truncated answer, or text altered in transit. This holds for any metadata and file names, including text that looks like ExifTool's end-of-command marker and multi-byte characters cut at a chunk boundary.",
 ["schedules","inputs"],"all interleavings of child output chunks, timers and calls; all cut points of a response; all metadata text",
 "Tests run a real exiftool whose pipe chunking and timing they do not control; they never cut a response inside a character or put the completion marker into metadata.",
 ["src/ExifTool.ts","src/ExifToolTask.ts","src/DefaultExifToolOptions.ts","src/ReadTask.ts"],
 [("stdout/stderr accumulation and completion marker","src/DefaultExifToolOptions.ts pass/fail, src/ExifToolTask.ts onStdout/onStderr"),("SourceFile cross-check","src/ReadTask.ts parse")],
 ["promise results of read/readRaw/write/version/extract*"])

p("C02","Every call settles, exactly once, under any fault of the child processes",
 "Every promise returned by a read, write, extraction, repair or version call settles in bounded time whatever the children do: crash before, during or after answering, close a stream, sometimes fail to spawn, answer nothing until the task timeout, emit errors, or be shut down by the caller at any moment. A fault of one child never fails, delays without bound, or changes the answer of a call that was not running on it, and the instance keeps serving later calls unless it was ended.",
 ["schedules","fault_sequences","crash_points"],"all placements of up to k faults (crash, stall, spawn failure, garbage, recycle, shutdown) in the event history of up to n calls on up to m children",
 "Tests kill real children at a handful of uncontrolled moments; they cannot place a crash between each pair of events.",
 ["src/ExifTool.ts","src/AsyncRetry.ts","src/ExifToolTask.ts"],
 [("task dispatch and retry","src/ExifTool.ts enqueueTask"),("retry loop","src/AsyncRetry.ts")],
 ["settlement of returned promises"])

p("C03","Modifying commands are never re-sent; retriable commands retry within budget",
 "A write, tag edit or delete-all-tags call sends its command to ExifTool at most once whatever fails, so a non-idempotent change is never applied twice. A read, extraction, repair or version call, and a custom task enqueued as retriable, is attempted again only after a failed attempt, at most the configured number of extra times, and resolves with the first successful attempt or rejects with the last failure.",
 ["fault_sequences","schedules","configurations"],"all success/failure sequences of attempts, all fault kinds, all retry budgets, every public call",
 "Tests exercise a couple of failure sequences with the default retry budget.",
 ["src/ExifTool.ts","src/AsyncRetry.ts","src/WriteTask.ts","src/BinaryExtractionTask.ts"],
 [("retriable flag","src/ExifTool.ts write/editTags/deleteAllTags"),("retryOnReject","src/AsyncRetry.ts")],
 ["commands observed on child stdin","promise results"])

p("C04","Shutdown leaves no child behind, rejects new work and settles old work",
 "Once ending is requested (explicitly, by either form of disposal, or because the host's event loop has drained), the instance reports itself as ended at once, starts no new work and rejects later calls without sending anything; when the end promise resolves every call made earlier has settled or settles without further child activity, and every child process ever obtained has exited or been sent a kill signal, including children that ignore the exit command. Repeated or concurrent end and disposal requests are harmless and settle, a forced request does not wait for running commands, and forced cleanup is requested when graceful disposal exceeds its configured time. Once a shutdown is over, nothing of the instance keeps the host process running. When the host process exits without having ended an instance, or while one is still ending, each of its running children has been sent a kill signal.",
 ["schedules","fault_sequences","histories"],"all orders of calls, child events, end, dispose and async-dispose requests, with cooperative, deaf and crashing children",
 "Tests call end() at quiescent points with cooperative children.",
 ["src/ExifTool.ts"],
 [("end/ended/dispose/asyncDispose","src/ExifTool.ts"),("exit command","src/DefaultExifToolOptions.ts")],
 ["end()/dispose promises","ended","signals sent to children","commands on child stdin"])

p("C05","Caller-supplied text can never add or alter ExifTool arguments",
 "For every public call and any caller-supplied file name, tag name, tag value, edit, numeric-tag entry or retained-tag entry, either the call rejects and no child receives anything, or the child receives exactly one command whose argument list has the intended arguments, each supplied text confined to its own argument position. No line break, NUL, separator, markup or option-like text in the input can terminate the command, introduce another argument, or redirect to another file.",
 ["inputs"],"all strings over an alphabet of protocol-significant and ordinary characters up to a length bound, in every text position of every public call",
 "Tests try a few hand-picked injection strings on some of the entry points.",
 ["src/ExifToolTask.ts","src/TagNameValidation.ts","src/WriteTask.ts","src/ReadTask.ts","src/ReadRawTask.ts","src/BinaryExtractionTask.ts","src/BinaryToBufferTask.ts","src/RewriteAllTagsTask.ts","src/ExifTool.ts","src/TagEdit.ts"],
 [("control-character assertion","src/ExifToolTask.ts renderCommand"),("tag name validation","src/TagNameValidation.ts"),("value encoding","src/WriteTask.ts enc/htmlEncode")],
 ["commands on child stdin","promise results"])

p("C06","Options resolve per call and calls never affect each other or their inputs",
 "The command sent and the result returned for a call depend only on that call's arguments, the options given to it (which override the instance's options field by field, which override the defaults) and ExifTool's answer; they are the same whatever calls were made before or concurrently on any instance. No call modifies the objects or arrays the caller passed in, nor the instance's or library's default options.",
 ["histories","configurations","inputs"],"all sequences of calls up to a depth over an alphabet of calls, shared argument objects and instances; all combinations of default/instance/call-level values for each option",
 "Tests use fresh argument objects and compare one configuration at a time.",
 ["src/ExifTool.ts","src/ReadTask.ts","src/ReadRawTask.ts","src/WriteTask.ts","src/Pick.ts","src/ExifToolOptions.ts"],
 [("option merging","src/ExifTool.ts read/readRaw/write/editTags"),("task construction","src/*Task.ts")],
 ["commands on child stdin","promise results","argument objects after the call"])

p("C07","What ExifTool decodes from a write command is exactly the value given",
 "For any tag value accepted by write (strings with any characters, numbers, booleans, null, dates and times, lists, structures, lists of structures and structures containing lists), the arguments sent decode, by ExifTool's own rules for character entities, list separators and structure syntax, to exactly that value, with every string delimiter inside it preserved; only HTML-entity-like text (and, inside list items, the ASCII unit separator) is interpreted. Writing a numeric latitude, longitude or altitude also sets the matching hemisphere or sea-level reference from that call's own value unless the caller gave one.",
 ["inputs"],"all values of bounded size built from an alphabet of delimiter, escape, white-space, non-ASCII and plain characters and all value shapes to depth 3",
 "Round-trip tests sample a few dozen values.",
 ["src/WriteTask.ts","src/Struct.ts","src/DateTime.ts"],
 [("enc/htmlEncode","src/WriteTask.ts"),("GPS reference back-fill","src/WriteTask.ts for")],
 ["commands on child stdin","metadata read back by the real exiftool (conformance)"])

p("C08","Tag edits are all-or-nothing, literal and exactly as listed",
 "A tag-edit call either rejects before anything is sent (unknown tag, wrong operation or value shape, unencodable text, contradictory edits, incompatible extra arguments, empty list) or sends one write command containing exactly the listed edits in order, with the canonical tag name, the right add/remove operator and a value that ExifTool decodes to exactly the given text or structure, entity-like sequences included. Edits are captured when the command is built: changes to the caller's objects after that have no effect.",
 ["inputs","histories"],"all edit lists up to length 2 over tags x operations x value alphabet, and all mutation points of the caller's objects",
 "Tests check selected tags, values and invalid shapes.",
 ["src/TagEdit.ts","src/WriteTask.ts","src/ExifTool.ts"],
 [("validateTagEdits","src/TagEdit.ts"),("forTagEdits","src/WriteTask.ts")],
 ["commands on child stdin","promise results","metadata read back by the real exiftool (conformance)"])

p("C09","Errors, warnings and file counts reported by ExifTool reach the caller",
 "Every diagnostic line ExifTool writes for a command is classified the same way for every call: lines marked as warnings or as having nothing to write never fail a call and are reported as warnings, while any error line makes a write or an extraction to a file reject with that message and is listed in a read's errors. A write resolves with the created, updated and unchanged counts summed exactly from ExifTool's report, and unrecognised report lines are surfaced as warnings, never dropped or counted.",
 ["inputs","histories"],"all sequences of up to k diagnostic/report lines from ExifTool's vocabulary (with case, order, line-ending and chunk variations), for every public call",
 "Tests check a handful of real messages.",
 ["src/ExifToolTask.ts","src/IsWarning.ts","src/ErrorsAndWarnings.ts","src/WriteTask.ts","src/ReadTask.ts","src/RewriteAllTagsTask.ts","src/BinaryExtractionTask.ts"],
 [("stderr classification","src/ExifToolTask.ts parser"),("count parsing","src/WriteTask.ts parse")],
 ["promise results"])

p("C10","Reading never loses, invents or misattributes a tag",
 "A read resolves with every tag ExifTool reported that has a meaningful value, under its reported name, each either unchanged or converted to a richer type that still carries the reported text, and with nothing that ExifTool did not report other than the documented derived fields; raw reads return ExifTool's values unchanged. An answer that is not valid or is empty makes the call reject, and so does a read's answer that belongs to another file.",
 ["inputs"],"all combinations of tag-name kinds (plain, grouped, date-like, numeric-like, reserved and prototype names) with value kinds up to nesting depth 2, and all answer malformations",
 "Tests compare selected tags of sample images.",
 ["src/ReadTask.ts","src/ReadRawTask.ts","src/BinaryField.ts","src/File.ts"],
 [("parse and per-tag conversion","src/ReadTask.ts"),("SourceFile check","src/ReadTask.ts, src/ReadRawTask.ts")],
 ["read/readRaw results"])

p("C11","Malformed-text bytes are reported exactly, and only for malformed values",
 "When metadata text is not valid UTF-8, a read returns the repaired text in place and the original bytes, unmodified, at the mirrored path of the byte report; well-formed values and values that are not exactly the internal transport encoding are returned untouched and never appear there. Serialising such a result to JSON and parsing it back with the library restores the same bytes, and a caller-supplied output filter turns the whole mechanism off.",
 ["inputs","configurations"],"all nesting shapes to depth 3 with malformed leaves at any subset of positions, all near-miss encodings, all filter-argument spellings",
 "Tests sample a few shapes and byte strings.",
 ["src/InvalidUtf8Bytes.ts","src/Utf8JsonFilter.ts","src/ReadTask.ts","src/ReadRawTask.ts","src/JSON.ts"],
 [("wire wrapper and unwrap","src/InvalidUtf8Bytes.ts"),("filter argument","src/Utf8JsonFilter.ts")],
 ["read/readRaw results","commands on child stdin","real exiftool on malformed files (conformance)"])

p("C12","Dates and times survive parsing and formatting without drift",
 "Any date, time or timestamp text the library accepts denotes, after parsing, exactly the fields written in it (sub-second digits to the millisecond, the stated offset or zone, and no zone when none was stated or supplied), and rendering it back to EXIF or ISO form and re-parsing yields an equal value; text naming an impossible date or time is never turned into a different valid one (24:00:00 is midnight, and a local time that a named zone's rules skip may be moved across that gap). The result never depends on the host's time zone or on what was parsed before.",
 ["inputs","configurations"],"the product of boundary field values, separators, sub-second lengths, zone suffixes and default zones, under several host time zones",
 "Tests check example strings under one host zone.",
 ["src/ExifDateTime.ts","src/ExifDate.ts","src/ExifTime.ts","src/TimeParsing.ts","src/DateTime.ts"],
 [("parsers","src/ExifDateTime.ts, src/ExifDate.ts, src/ExifTime.ts, src/TimeParsing.ts"),("renderers","toExifString/toISOString")],
 ["public value classes"])

p("C13","Serialised tag values come back as equal values",
 "Converting any value the library returns (timestamps, dates, times, binary placeholders, byte reports, and any nesting of them in lists, structures and tag sets) to JSON text and reviving it with the library yields values of the same type that are equal in every observable way: same instant, same zone and zone-inference status, same original text, same rendering. Plain data that does not claim to be one of these types is revived unchanged, whatever its keys.",
 ["inputs"],"all library value kinds over boundary fields and zone states, nested to depth 2, and all plain-JSON look-alikes",
 "Tests round-trip a few examples.",
 ["src/JSON.ts","src/ExifDateTime.ts","src/ExifDate.ts","src/ExifTime.ts","src/BinaryField.ts"],
 [("toJSON/fromJSON and revivers","src/JSON.ts")],
 ["parseJSON results"])

p("C14","The inferred time zone follows the documented precedence and is valid",
 "For any combination of offset tags, coordinates, datestamps, UTC timestamps and media type, and any setting of the inference options, a read's reported zone comes from the first source in the documented order that yields a valid zone, is named in the reported source, and is always a usable zone; timestamps without their own zone adopt it exactly when back-filling is enabled (a video's count as UTC when that option is on, and GPS times and tags named as UTC always do), while timestamps with an explicit zone keep theirs. When no source yields a zone, none is reported and nothing is back-filled.",
 ["inputs","configurations"],"the product of presence/validity states of each zone source, the media type and every inference option",
 "Tests cover single sources and a few pairs.",
 ["src/ReadTask.ts","src/Timezones.ts","src/CapturedAtTagNames.ts"],
 [("extractTzOffset chain","src/ReadTask.ts"),("per-source extraction","src/Timezones.ts")],
 ["zone/tz/tzSource and timestamp zones in read results"])

p("C15","Zone names and offsets convert consistently and only valid ones are accepted",
 "Every supported UTC offset converts to a zone name, short offset and minute count that all denote the same offset and convert back to each other; every spelling accepted as a zone denotes exactly the offset it states, and offsets no real zone uses are rejected. The UTC offset estimated from a local and a UTC timestamp is the supported offset nearest to their difference, or none when no supported offset lies within the configured tolerance.",
 ["inputs","configurations"],"every offset -16:00..+16:00 at minute granularity in every accepted spelling, under every offset-related setting; every local/UTC difference within a day",
 "Tests sample offsets and spellings.",
 ["src/Timezones.ts","src/Settings.ts"],
 [("parse/normalise/format functions","src/Timezones.ts")],
 ["exported zone functions"])

p("C16","Global settings take effect immediately, completely and reversibly",
 "After any sequence of setting changes, resets, listener registrations and removals interleaved with zone parsing, every zone-related result equals what a fresh process with the same final settings would give: nothing computed under earlier settings lingers. Each registered listener is told of every effective change exactly once with the old and new values, removed listeners and failing listeners never affect others, and reset restores the defaults.",
 ["histories"],"all sequences up to a depth over set/reset/subscribe/unsubscribe/parse operations on every setting",
 "Tests toggle settings in a few fixed orders.",
 ["src/Settings.ts","src/Timezones.ts"],
 [("Setting/listeners","src/Settings.ts"),("memoised tables and invalidation","src/Timezones.ts")],
 ["exported Settings and zone functions"])

p("C17","Coordinates keep their location: sign, hemisphere, range and null island",
 "For any reported pair of latitude and longitude, given as separate coordinates with or without references or as one position, a read returns coordinates denoting the same point on Earth with the sign matching the hemisphere reference and references matching the sign; numeric coordinates that are out of range, and zero-zero coordinates when these are to be ignored, yield no coordinates, no position and no location-derived zone, and texts that do not denote a coordinate never yield one, with a warning for each rather than a failure. Decimal, signed, degree, degree-minute, degree-minute-second and hemisphere-suffixed spellings of the same point give the same coordinates.",
 ["inputs","configurations"],"the product of numeric and textual spellings, references, boundary magnitudes, position strings and options",
 "Tests check individual examples.",
 ["src/GPS.ts","src/CoordinateParser.ts","src/ReadTask.ts"],
 [("parseGPSLocation","src/GPS.ts"),("coordinate grammar","src/CoordinateParser.ts")],
 ["GPS fields of read results"])

p("C18","Extraction delivers the exact bytes or rejects, and never clobbers files",
 "Extracting binary metadata to memory resolves with exactly the bytes ExifTool reported for that tag, and otherwise rejects; extracting to a file asks ExifTool for the tag's raw bytes into exactly the given destination, resolves only if ExifTool reported that one file was written, and overwrites an existing destination only when explicitly asked. A definitive 'nothing extracted' answer rejects without repeating the command, and repairing a file resolves only when ExifTool reports the output file was created.",
 ["inputs","fault_sequences","configurations"],"all report texts/diagnostics from ExifTool's vocabulary, all byte strings up to a length, destination names and options",
 "Tests extract from a few sample files.",
 ["src/BinaryExtractionTask.ts","src/BinaryToBufferTask.ts","src/RewriteAllTagsTask.ts","src/ExifTool.ts"],
 [("status parsing","src/BinaryExtractionTask.ts parse"),("base64 decode","src/BinaryToBufferTask.ts parse"),("rewrite status","src/RewriteAllTagsTask.ts parse")],
 ["promise results","commands on child stdin"])

p("C19","Tag descriptions are correct under any cache state, crash or concurrency",
 "A tag-description lookup returns ExifTool's description for that tag in the requested language (or the curated text where documented), whatever is in the on-disk cache: absent, valid, truncated at any byte, corrupt, for another version or language, unreadable or unwritable, and whatever lookups, clears and failures happen concurrently. A failed load never poisons later lookups, and cache content left by a crash at any point is never served as complete. (A complete, well-formed cache file for the same version and language is trusted.)",
 ["crash_points","schedules","inputs","histories"],"all truncation points of the cache file, all cache-content classes, all orders of lookup/clear/load completion/failure up to a depth",
 "Tests cover a warm and a cold cache.",
 ["src/TagDescriptions.ts","src/ListXTask.ts"],
 [("disk cache and lazy load","src/TagDescriptions.ts"),("listx parsing","src/ListXTask.ts")],
 ["lookup results","cache file content"])

p("C20","Timestamps keep their instant through every conversion",
 "For any timestamp value with a zone, its epoch milliseconds, ISO text, native date, zone change and arithmetic agree with the calendar fields and offset it shows; converting to and from epoch milliseconds or native dates, or changing to another zone and back, preserves the instant and the fields. A timestamp without a zone keeps its fields when a zone is assigned and when it is shifted, whatever the host's zone.",
 ["inputs"],"the product of boundary instants (DST gaps and overlaps, year ends, leap days, sub-seconds) with fixed-offset, named and unset zones and conversion chains up to length 3",
 "Tests check single conversions.",
 ["src/ExifDateTime.ts","src/ExifTime.ts","src/ExifDate.ts"],
 [("luxon conversions","src/ExifDateTime.ts"),("setZone/plus/fromMillis","src/ExifDateTime.ts, src/ExifTime.ts")],
 ["public value classes"])

p("C21","Pool limits hold: process count, one task at a time, recycling",
 "At no moment do more children of an instance run tasks than the configured maximum, no child is given a command before answering the previous one, and no child is given more commands than the configured per-process limit before it is replaced, without losing or repeating any call. The process ids and the counts of busy, spawned and waiting work that the instance reports are those of its children and calls. Each child is launched without a shell, in ExifTool's keep-alive mode, with the configured program, arguments and environment plus the forced locale, and nothing of the caller's environment beyond what is configured.",
 ["schedules","configurations"],"all interleavings of calls and child events for small limits; all combinations of launch-related options",
 "Tests observe process counts at a few moments.",
 ["src/ExifTool.ts","src/DefaultExifToolOptions.ts","src/DefaultExiftoolArgs.ts"],
 [("option pass-through and process factory","src/ExifTool.ts constructor"),("default arguments","src/DefaultExiftoolArgs.ts")],
 ["children alive","commands on child stdin","spawn calls"])

p("C22","Read and write commands request exactly what the options describe",
 "For every combination of documented read and write options and extra arguments, the command contains each requested feature once and no unrequested one, extra arguments appear verbatim and in order where they take effect, numeric-tag requests precede the request for all tags, the target file is absolute and last, and minor-error handling follows the option. An invalid option value rejects without sending anything.",
 ["configurations"],"the full product of read options, raw-read options, write options and deprecated spellings over their value domains",
 "Tests check individual options.",
 ["src/ReadTask.ts","src/ReadRawTask.ts","src/WriteTask.ts","src/ExifToolTask.ts","src/ExifToolOptions.ts","src/FilenameCharsetArgs.ts"],
 [("argument assembly","src/*Task.ts for"),("deprecated option handling","src/ExifToolOptions.ts handleDeprecatedOptions")],
 ["commands on child stdin"])

p("C23","The ExifTool and Perl that are launched are the documented ones, or calls reject",
 "A path given by the caller, as text, promise or function, is the program that is launched. Otherwise it is the vendored one (its unpacked copy when the application is packed in an Electron archive and that copy exists), else the one in Electron's resources, else the first readable, executable file of that name on PATH; when there is none, locating it rejects with an error saying so, and a missing file, a directory or a non-executable file is never chosen. A location that was found is kept; a failure to find it is not. The program runs through its own interpreter line, or through the system's perl, or else the first on PATH, when that interpreter is missing or the option asks for it; when Perl is to be checked and there is none, calls reject saying so and nothing is launched.",
 ["configurations","histories"],"every state of the vendored package, its unpacked copy, Electron's resources, PATH and the interpreter, and every history of the caller's locator",
 "Tests see only the one installation they run in.",
 ["src/ExiftoolPath.ts","src/Which.ts","src/ExifTool.ts","src/Lazy.ts"],
 [("search order","src/ExiftoolPath.ts exiftoolPath"),("PATH search","src/Which.ts"),("interpreter and memoised location","src/ExifTool.ts whichPerl, exiftoolPath, processFactory")],
 ["exiftoolPath() results","spawn calls"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
