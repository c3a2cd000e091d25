"use strict";
// Answers of the stand-in exiftool and the calls that produce them.
const json = (o) => JSON.stringify([o], null, 2).replace(/^ {2}/gm, "") + "\n";
const title = (f) => `T:${f}:ü€😀`;
const readAnswer = (f) => json({ SourceFile: f, Title: title(f), Rating: f.length });
const KINDS = {
  read: { retriable: true, out: readAnswer, call: (f) => (et) => et.read(f), ok: (f, v) => v.SourceFile === f && v.Title === title(f) && v.Rating === f.length && v.errors.length === 0 },
  readRaw: { retriable: true, out: readAnswer, call: (f) => (et) => et.readRaw(f), ok: (f, v) => v.SourceFile === f && v.Title === title(f) && v.Rating === f.length },
  write: { retriable: false, out: () => "    1 image files updated\n", call: (f) => (et) => et.write(f, { Title: "x" }), ok: (f, v) => v.updated === 1 && v.created === 0 && v.unchanged === 0 && v.warnings === undefined },
  edit: { retriable: false, out: () => "    1 image files updated\n", call: (f) => (et) => et.editTags(f, [{ operation: "add", tag: "XMP-dc:Subject", value: "x" }]), ok: (f, v) => v.updated === 1 && v.warnings === undefined },
  del: { retriable: false, out: () => "    1 image files updated\n", call: (f) => (et) => et.deleteAllTags(f), ok: (f, v) => v.updated === 1 },
  buf: { retriable: true, out: (f) => json({ SourceFile: f, ThumbnailImage: "base64:" + Buffer.from("B" + f).toString("base64") }), call: (f) => (et) => et.extractBinaryTagToBuffer("ThumbnailImage", f), ok: (f, v) => Buffer.isBuffer(v) && v.toString() === "B" + f },
  thumb: { retriable: true, out: () => "    1 output files created\n", call: (f) => (et) => et.extractThumbnail(f, "/tmp/etv-verif-none.jpg"), ok: (f, v) => v === undefined },
  rewrite: { retriable: true, out: () => "    1 image files created\n", call: (f) => (et) => et.rewriteAllTags(f, "/tmp/etv-verif-none.jpg"), ok: (f, v) => v === undefined },
  version: { retriable: true, out: () => "13.59\n", call: () => (et) => et.version(), ok: (f, v) => v === "13.59" },
};
module.exports = { json, title, readAnswer, KINDS };
