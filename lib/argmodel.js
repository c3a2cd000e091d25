"use strict";
// Model of how `exiftool -stay_open True -@ -` reads its argument stream and decides
// between options, assignments, tag names and files (exiftool script, FilterArgfileLine
// and the main option loop). Conformance with the vendored script is replayed by
// conform() below against the real program.
function filterLine(s) {
  if (s.startsWith("#")) { const m = /^#\[CSTR\]/.exec(s); if (!m) return undefined; return s.slice(7); }
  s = s.replace(/^\s+/, "").replace(/[\r\n]+$/, "");
  s = s.replace(/^(-[-_0-9A-Z:]+#?)\s*([-+<]?=) ?/i, "$1$2");
  return s === "" ? undefined : s;
}
// options by their exact spelling in the option loop (without the leading dash)
const EQ = "api charset composite dateformat decimal ec eh escapec escapehtml escapexml ex exclude forceprint geotag globaltimeshift hex htmlformat lang latin listitem long nop overwrite_original overwrite_original_in_place password php plot preserve require restore_original scanforxmp srcfile stay_open table use userparam ver veryshort wm writemode xmlformat common_args".split(" ");
const RES = [/^sort$/i, /^struct$/i, /^(a|duplicates)$/i, /^(wext|tagoutext)$/i, /^b(inary)?$/i, /^(printconv)$/i, /^execute(\d+)?$/i, /^(all|add)?tagsfromfile(=.*)?$/is, /^(csv|j(son)?)(\+?=.*)?$/is, /^(ee|extractembedded)(\d*)$/i, /^(file\d+)$/i, /^(g)(roupHeadings|roupNames)?([\d:]*)$/i, /^(k|pause)$/i, /^(m|ignoreminorerrors)$/i, /^n$/i, /^(u)(nknown(2)?)?$/i, /^(w|textout|tagout)([!+]*)$/i, /^ext(ension)?(\+)?$/i, /^[eDdEHhLlPpSTtXxFfa-z0-9]$/i, /^F([-+]?\d*)$/, /^arg(s|format)$/i, /^c(oordFormat)?$/i, /^config$/i, /^csvdelim$/i, /^delete_original(!?)$/i, /^diff$/i, /^echo(\d)?$/i, /^efile(\d+)?(!)?$/i, /^fast(\d*)$/i, /^fileorder(\d*)$/i, /^fixbase([-+]?\d*)$/i, /^htmldump([-+]?\d+)?$/i, /^i(gnore)?$/i, /^if(\d*)$/i, /^list([wfrdx]|wf|g(\d*)|geo)?$/i, /^list_dir$/i, /^o(ut)?$/i, /^p(-?)$/, /^printformat(-?)$/i, /^progress(\d*)(:.*)?$/is, /^purge(\d*)$/i, /^q(uiet)?$/i, /^r(ecurse)?(\.?)$/i, /^s(hort)?(\d*)$/i, /^sep(arator)?$/i, /^t(ab)?$/, /^v(erbose)?(\d*)$/i, /^z(ip)?$/i];
const isOption = (a) => EQ.includes(a.toLowerCase()) || RES.some((r) => r.test(a));
const OPTION_WORDS = [...EQ, "sort", "struct", "duplicates", "wext", "binary", "printconv", "execute", "execute5", "tagsfromfile", "alltagsfromfile", "addtagsfromfile", "csv", "json", "j", "csv+", "json+", "ee", "ee2", "file1", "g", "g1", "g0:1", "groupNames", "k", "m", "n", "u", "U", "w", "W", "w+", "textout", "tagout", "ext", "ext+", "extension", "F", "F-1", "args", "argformat", "c", "config", "csvdelim", "delete_original", "diff", "echo", "echo3", "efile", "fast2", "fileorder", "fixbase", "htmldump", "i", "ignore", "if", "if2", "list", "listx", "listw", "listgeo", "list_dir", "o", "out", "p", "P", "p-", "printformat", "progress", "progress:x", "progress5:x", "purge", "q", "quiet", "r", "recurse", "s", "s3", "short", "S", "sep", "separator", "t", "tab", "T", "v", "v3", "verbose", "X", "x", "z", "zip", "d", "D", "e", "E", "f", "h", "H", "l", "L", "unknown", "unknown2"];
module.exports = { filterLine, isOption, OPTION_WORDS };
