"use strict";
// Model of ExifTool's destination name expansion (-W and -out): FilenameSPrintf for
// the codes d D f F e E t g s o, then NextUnusedFilename for c C. No code has an escape.
const RE1 = /%([-+]?)(\d*)([.:]?)(\d*)([lu]?)([dDfFeEtgso])/g;
const RE2 = /%[-+]?\d*[.:]?\d*[lun]?[cC]/;
// -> the file ExifTool would write, or undefined when it depends on existing files
function expandDest(fmt, src, extra = {}) {
  const m = /^(.*?)([^/]*?)(\.[^./]*)?$/s.exec(src);
  const part = { d: m[1], f: m[2], E: m[3] || "", ...extra };
  part.e = part.E.slice(1); part.F = part.f + part.E; part.D = part.d.replace(/\/+$/, "");
  let out = fmt;
  if (new RegExp(RE1.source).test(fmt)) {
    out = ""; let pos = 0;
    const re = new RegExp(RE1.source, "g");
    for (let x; (x = re.exec(fmt)); ) {
      out += fmt.slice(pos, x.index);
      pos = re.lastIndex;
      const [, sign, w, dot, sk, mod, code] = x;
      let v = part[code] ?? "", skip = Number(sk || 0), seg = null;
      if (code === "g") { const y = /^\d/.exec(fmt.slice(pos)); if (y) { pos++; re.lastIndex = pos; } v = (extra.g || [])[y ? Number(y[0]) : 0] ?? ""; }
      if (code.toLowerCase() === "d" && dot === ":") seg = v.split("/");
      const len = seg ? seg.length : v.length;
      if (!(skip < len)) continue;
      const wid = w === "" || Number(w) + skip > len ? len - skip : Number(w);
      if (sign === "-") skip = len - wid - skip;
      let p = seg ? seg.slice(skip, skip + wid).join("/") + (code === "D" ? "" : "/") : v.substr(skip, wid);
      if (mod) p = mod === "u" ? p.toUpperCase() : p.toLowerCase();
      out += p;
    }
    out += fmt.slice(pos);
    out = out[0] + out.slice(1).replace(/\/\//g, "/");
  }
  return RE2.test(out) ? undefined : out;
}
module.exports = { expandDest };
