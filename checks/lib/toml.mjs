// A small TOML reader, used as the oracle for configuration files. Throws on
// what TOML forbids (a key or table defined twice, text after a value, ...).
export const parseToml = (text) => {
  let i = 0; const bad = (m) => { throw new Error(`TOML: ${m} at line ${text.slice(0, i).split("\n").length}`); };
  const root = {}; const meta = new WeakMap(); // table -> "explicit" | "implicit" | "dotted" | "closed"
  meta.set(root, "explicit"); let cur = root;
  const has = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
  const set = (o, k, v) => Object.defineProperty(o, k, { value: v, enumerable: true, writable: true, configurable: true });
  const ws = () => { while (text[i] === " " || text[i] === "\t") i++; };
  const eol = () => { ws(); if (text[i] === "#") while (i < text.length && text[i] !== "\n") i++; if (text[i] === "\r" && text[i + 1] === "\n") i++; if (i < text.length && text[i] !== "\n") bad(`unexpected ${JSON.stringify(text[i])}`); i++; };
  const skip = () => { for (;;) { ws(); if (text[i] === "\n" || text[i] === "\r") { i++; continue; } if (text[i] === "#") { while (i < text.length && text[i] !== "\n") i++; continue; } return; } };
  const esc = () => { const c = text[i++]; const s = { b: "\b", t: "\t", n: "\n", f: "\f", r: "\r", '"': '"', "\\": "\\" }; if (c in s) return s[c]; if (c === "u" || c === "U") { const n = c === "u" ? 4 : 8; const h = text.slice(i, i + n); if (!/^[0-9a-fA-F]+$/.test(h) || h.length !== n) bad("bad escape"); i += n; return String.fromCodePoint(parseInt(h, 16)); } return bad("bad escape"); };
  const string = (multiOk) => {
    const q = text[i]; let out = "";
    if (multiOk && text.startsWith(q.repeat(3), i)) {
      i += 3; if (text[i] === "\r") i++; if (text[i] === "\n") i++;
      for (;;) {
        if (i >= text.length) bad("unterminated string");
        if (text.startsWith(q.repeat(3), i)) { i += 3; while (text[i] === q) { out += q; i++; } return out; }
        if (q === '"' && text[i] === "\\") { i++; if (/\s/.test(text[i])) { while (/\s/.test(text[i] ?? "")) i++; continue; } out += esc(); continue; }
        out += text[i++];
      }
    }
    i++; for (;;) { const c = text[i]; if (c === undefined || c === "\n") bad("unterminated string"); if (c === q) { i++; return out; } if (q === '"' && c === "\\") { i++; out += esc(); continue; } out += c; i++; }
  };
  const key1 = () => { ws(); if (text[i] === '"' || text[i] === "'") return string(false); const m = /^[A-Za-z0-9_-]+/.exec(text.slice(i, i + 200)); if (!m) bad(`expected a key, found ${JSON.stringify(text.slice(i, i + 10))}`); i += m[0].length; return m[0]; };
  const keys = () => { const out = [key1()]; for (;;) { ws(); if (text[i] !== ".") return out; i++; out.push(key1()); } };
  const assign = (tbl, path, v, how) => { let t = tbl; for (const k of path.slice(0, -1)) { if (!has(t, k)) { const n = {}; meta.set(n, "dotted"); set(t, k, n); } t = t[k]; if (typeof t !== "object" || Array.isArray(t) || meta.get(t) === "closed" || (how === "line" && meta.get(t) === "explicit")) bad(`cannot extend ${k}`); } const k = path.at(-1); if (has(t, k)) bad(`${path.join(".")} defined twice`); set(t, k, v); };
  const value = () => {
    ws(); const c = text[i];
    if (c === '"' || c === "'") return string(true);
    if (c === "[") { i++; const a = []; for (;;) { skip(); if (text[i] === "]") { i++; return a; } a.push(value()); skip(); if (text[i] === ",") { i++; continue; } if (text[i] !== "]") bad("expected , or ]"); } }
    if (c === "{") { i++; const o = {}; meta.set(o, "building"); ws(); if (text[i] === "}") { i++; meta.set(o, "closed"); return o; } for (;;) { const p = keys(); ws(); if (text[i++] !== "=") bad("expected ="); assign(o, p, value(), "inline"); ws(); if (text[i] === ",") { i++; continue; } if (text[i] === "}") { i++; meta.set(o, "closed"); return o; } bad("expected , or }"); } }
    const m = /^[^\s,\]}#]+/.exec(text.slice(i, i + 100)); if (!m) bad("expected a value"); i += m[0].length; const w = m[0];
    if (w === "true") return true; if (w === "false") return false; if (/^[+-]?[0-9_]+(\.[0-9_]+)?([eE][+-]?\d+)?$/.test(w)) return Number(w.replace(/_/g, "")); if (/^\d{4}-\d\d/.test(w)) return w; return bad(`bad value ${w}`);
  };
  if (text.charCodeAt(0) === 0xfeff) i++;
  for (;;) {
    skip(); if (i >= text.length) return root;
    if (text[i] === "[") {
      i++; const arr = text[i] === "["; if (arr) i++; const path = keys(); ws(); if (text[i++] !== "]" || (arr && text[i++] !== "]")) bad("expected ]"); eol();
      let t = root; for (const k of path.slice(0, -1)) { if (!has(t, k)) { const n = {}; meta.set(n, "implicit"); set(t, k, n); } t = t[k]; if (Array.isArray(t)) { t = t.at(-1); } if (typeof t !== "object" || t === null || meta.get(t) === "closed") bad(`cannot extend ${k}`); }
      const k = path.at(-1);
      if (arr) { if (!has(t, k)) { const a = []; meta.set(a, "tables"); set(t, k, a); } if (!Array.isArray(t[k]) || meta.get(t[k]) !== "tables") bad(`${k} is not an array of tables`); const n = {}; meta.set(n, "explicit"); t[k].push(n); cur = n; continue; }
      if (!has(t, k)) { const n = {}; meta.set(n, "explicit"); set(t, k, n); cur = n; continue; }
      if (typeof t[k] !== "object" || Array.isArray(t[k]) || meta.get(t[k]) !== "implicit") bad(`table ${path.join(".")} defined twice`); meta.set(t[k], "explicit"); cur = t[k]; continue;
    }
    const path = keys(); ws(); if (text[i++] !== "=") bad("expected ="); assign(cur, path, value(), "line"); eol();
  }
};
