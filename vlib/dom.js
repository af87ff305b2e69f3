// A small DOM: runs the scripts of HTML views and clicks their buttons.
// stdin: {"views": [{"html": tree, "scripts": [..]}], "clicks": [[view, class], ...]}
const data = JSON.parse(require("fs").readFileSync(0, "utf8"));
class Unsupported extends Error {}
class El {
  constructor(t) {
    this.tag = t.tag; this.cls = (t.attrs["class"] || "").split(/\s+/).filter(x => x); this.id = t.attrs.id || "";
    this.attrs = t.attrs; this.style = {}; this.disabled = "disabled" in t.attrs; this.listeners = {};
    for (const p of (t.attrs.style || "").split(";")) { const i = p.indexOf(":"); if (i > 0) this.style[p.slice(0, i).trim()] = p.slice(i + 1).trim(); }
    this.children = []; this.parentElement = null; this.hidden = "hidden" in t.attrs; this._text = t.text || "";
    for (const c of t.children) { const e = wrap(new El(c)); e.parentElement = this.self; this.children.push(e); }
  }
  get self() { return this; }
  get className() { return this.cls.join(" "); }
  set className(v) { this.cls = v.split(/\s+/).filter(x => x); }
  get classList() { const c = this.cls; return { contains: x => c.includes(x), add: (...x) => { for (const y of x) if (!c.includes(y)) c.push(y); },
    remove: (...x) => { for (const y of x) { const i = c.indexOf(y); if (i >= 0) c.splice(i, 1); } },
    toggle: (x, f) => { const has = c.includes(x); const want = f === undefined ? !has : f; if (want && !has) c.push(x); if (!want && has) c.splice(c.indexOf(x), 1); return want; } }; }
  get innerText() { return this._text; } set innerText(v) { this._text = String(v); }
  get textContent() { return this._text; } set textContent(v) { this._text = String(v); }
  get innerHTML() { return this._text; } set innerHTML(v) { this._text = String(v); }
  addEventListener(n, f) { (this.listeners[n] = this.listeners[n] || []).push(f); }
  setAttribute(k, v) { if (k === "disabled") this.disabled = true; else if (k === "class") this.className = v; else if (k === "style") { for (const p of v.split(";")) { const i = p.indexOf(":"); if (i > 0) this.style[p.slice(0, i).trim()] = p.slice(i + 1).trim(); } } else this.attrs[k] = v; }
  removeAttribute(k) { if (k === "disabled") this.disabled = false; else if (k === "hidden") this.hidden = false; else delete this.attrs[k]; }
  getAttribute(k) { return k === "class" ? this.className : k in this.attrs ? this.attrs[k] : null; }
  hasAttribute(k) { return k === "disabled" ? this.disabled : k in this.attrs; }
  querySelectorAll(s) { return all(s, this); }
  querySelector(s) { return all(s, this)[0] || null; }
  getElementsByClassName(s) { return all(s.split(/\s+/).map(x => "." + x).join(""), this); }
  closest(s) { let e = this; while (e) { if (match(e, s)) return e; e = e.parentElement; } return null; }
  click() { if (this.disabled) return; for (const f of this.listeners.click || []) f.call(this, { target: this, currentTarget: this, preventDefault() {}, stopPropagation() {} }); if (typeof this.onclick === "function") this.onclick({ target: this }); }
  descend(out) { for (const c of this.children) { out.push(c); c.descend(out); } return out; }
}
function wrap(e) { return e; }
function match(e, simple) {
  const toks = simple.match(/[.#]?[A-Za-z0-9_-]+/g);
  if (!toks || toks.join("") !== simple) throw new Unsupported("selector " + simple);
  return toks.every(t => t[0] === "." ? e.cls.includes(t.slice(1)) : t[0] === "#" ? e.id === t.slice(1) : e.tag === t.toLowerCase());
}
function all(sel, root) {
  const out = [];
  for (const alt of sel.split(",")) {
    const parts = alt.trim().split(/\s+/);
    for (const e of root.descend([])) {
      if (!match(e, parts[parts.length - 1])) continue;
      let k = parts.length - 2, p = e.parentElement;
      while (k >= 0 && p) { if (match(p, parts[k])) k--; p = p.parentElement; }
      if (k < 0 && !out.includes(e)) out.push(e);
    }
  }
  return root.descend([]).filter(e => out.includes(e));
}
const body = new El({ tag: "body", attrs: {}, children: [] });
const document = { querySelector: s => body.querySelector(s), querySelectorAll: s => body.querySelectorAll(s), getElementsByClassName: s => body.getElementsByClassName(s),
  getElementById: i => body.descend([]).find(e => e.id === i) || null, body, readyState: "complete", addEventListener(n, f) { f(); }, currentScript: null };
const window = { document, addEventListener(n, f) { f(); } };
const roots = [];
const log = [];
function visible(e) { for (let p = e; p; p = p.parentElement) if (p.hidden || p.style.display === "none") return false; return true; }
function state() {
  return roots.map(r => {
    const q = s => { const f = r.descend([]).find(e => e.cls.includes(s)); return f || null; };
    return { steps: r.descend([]).filter(e => e.cls.includes("elsie-step")).map(visible), next: q("elsie-next") && q("elsie-next").disabled,
      prev: q("elsie-previous") && q("elsie-previous").disabled, text: q("elsie-current-step") && q("elsie-current-step").innerText };
  });
}
let res;
try {
  for (const v of data.views) {
    const r = new El({ tag: "div", attrs: {}, children: v.html });
    r.parentElement = body; body.children.push(r); roots.push(r);
    for (const c of r.children) c.parentElement = r;
    (function link(e) { for (const c of e.children) { c.parentElement = e; link(c); } })(r);
    for (const s of v.scripts) new Function("document", "window", s)(document, window);
  }
  log.push(state());
  for (const [v, c] of data.clicks) {
    const b = roots[v].descend([]).find(e => e.cls.includes(c));
    if (b) b.click();
    log.push(state());
  }
  res = { log };
} catch (e) {
  const m = String(e && e.message);
  res = { error: String(e), real: e instanceof SyntaxError || /of null|of undefined/.test(m) };
}
console.log(JSON.stringify(res));
