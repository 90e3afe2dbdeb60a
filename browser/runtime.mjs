// executes components compiled by svelte.mjs
let current = null;
export const $$state = { roots: [], depth: 0 };
export const onMount = (f) => current.mounts.push(f);
export const onDestroy = (f) => current.destroys.push(f);
export const beforeUpdate = () => {};
export const afterUpdate = (f) => current.after.push(f);
export const tick = () => Promise.resolve();
export const setContext = (k, v) => { current.context.set(k, v); return v; };
export const getContext = (k) => { for (let i = current; i; i = i.parent) if (i.context.has(k)) return i.context.get(k); };
export const hasContext = (k) => { for (let i = current; i; i = i.parent) if (i.context.has(k)) return true; return false; };
export const createEventDispatcher = () => { const i = current; return (n, d) => i.emit(n, { detail: d }); };
export function writable(v) {
  const subs = new Set();
  return { set(x) { v = x; subs.forEach((f) => f(v)); }, update(f) { this.set(f(v)); }, subscribe(f) { subs.add(f); f(v); return () => subs.delete(f); } };
}
export const readable = (v, start) => { const w = writable(v); if (start) start(w.set); return { subscribe: w.subscribe }; };
export const get = (s) => { let r; const u = s.subscribe((v) => (r = v)); typeof u === "function" && u(); return r; };
export const derived = (s, f) => ({ subscribe(cb) { cb(Array.isArray(s) ? f(s.map(get)) : f(get(s))); return () => {}; } });
const rt = {
  get, set(s, v) { s.set(v); return v; },
  text: (v) => ({ t: v === null || v === undefined ? "" : String(v) }),
  html: (v) => ({ html: String(v) }),
  each(list, k, f, other) {
    if (list === null || list === undefined) throw new TypeError("{#each} only iterates over array-like objects.");
    const out = []; let n = 0;
    for (const x of Array.from(list)) { out.push(...f(x, n, k + "#" + n)); n++; }
    if (!n && other) out.push(...other(k + "#e"));
    return out;
  },
  el(tag, attrs, on, binds, cls, ch) {
    const n = { tag, attrs, on: Object.fromEntries(on), children: ch };
    for (const [k, getv, setv] of binds) {
      if (k === "this") { const el = current.elements.get(setv.toString()) ?? { fake: true, style: {} }; current.elements.set(setv.toString(), el); n.el = el; setv(el); }
      else { n.attrs[k] = getv(); n.set = { ...n.set, [k]: setv }; }
    }
    const c = cls.filter((x) => x[1]).map((x) => x[0]); if (c.length) attrs.class = [attrs.class, ...c].filter(Boolean).join(" ");
    return n;
  },
};
class Instance {
  constructor(def, props, on, slots, parent) {
    Object.assign(this, { def, props, on, slots, parent, mounts: [], destroys: [], after: [], context: new Map(), kids: new Map(), elements: new Map(), seen: null, used: null });
    const saved = current; current = this;
    try { this.c = def.setup(this, rt); } finally { current = saved; }
  }
  has(n) { return this.props[n] !== undefined; }
  initial(n) { return this.props[n]; }
  forward(n) { return (e) => this.emit(n, e); }
  emit(n, e) { for (const [k, f] of this.on) if (k === n) f(e); }
  slot(name, props, k, fallback) {
    const s = this.slots[name]; if (!s) return fallback();
    const saved = current; current = this.parent;
    try { return s(props, k + "/" + this.key); } finally { current = saved; }
  }
  child(key, comp, props, on, binds, slots) {
    if (!comp) return "";
    const owner = this; owner.used?.add(key);
    for (const [k, getv] of binds) if (k !== "this") props[k] = getv();
    if (comp.native) return comp.native({ props, on: Object.fromEntries(on), binds: Object.fromEntries(binds.filter((b) => b[0] !== "this").map((b) => [b[0], b[2]])), slot: (n, p = {}) => slots[n] ? slots[n](p, key + "~" + n) : [], has: (n) => !!slots[n] });
    let i = owner.kids.get(key);
    if (!i || i.def !== comp.def) { i = new Instance(comp.def, props, on, slots, owner); i.key = key; owner.kids.set(key, i); }
    else { i.on = on; i.slots = slots; for (const k of Object.keys(props)) if (i.c.set[k] && (i.props[k] !== props[k] || typeof props[k] === "object")) i.c.set[k](props[k]); i.props = props; }
    return { tag: "#component", name: comp.def.name, attrs: {}, on: {}, children: i.render() };
  }
  flush() {
    for (let round = 0; ; round++) {
      let again = false;
      for (const r of this.c.reactive) {
        const now = r.deps(), old = r.last;
        if (!old || (round === 0 && now.some((v) => v !== null && typeof v === "object")) || now.some((v, i) => v !== old[i])) { r.last = now; r.run(); again = true; }
      }
      if (!again || round > 20) return;
    }
  }
  render() {
    const saved = current; current = this;
    try {
      this.flush(); this.used = new Set();
      const out = this.c.render("");
      for (const [k, i] of this.kids) if (!this.used.has(k)) { this.kids.delete(k); i.destroy(); }
      return out;
    } finally { current = saved; }
  }
  mount() {
    let ran = false;
    for (const k of this.kids.values()) ran = k.mount() || ran;
    const m = this.mounts; this.mounts = [];
    const saved = current; current = this;
    try { for (const f of m) { const d = f(); if (typeof d === "function") this.destroys.push(d); ran = true; } } finally { current = saved; }
    return ran;
  }
  destroy() { for (const k of this.kids.values()) k.destroy(); this.destroys.forEach((f) => f()); }
}
export function $$component(name, setup) {
  class Component {
    constructor({ props = {} } = {}) { this.inst = new Instance({ name, setup }, props, [], {}, null); globalThis.$$roots.push(this); this.update(); }
    update() { for (let n = 0; n < 10; n++) { this.tree = this.inst.render(); if (!this.inst.mount()) break; } }
  }
  Component.def = { name, setup };
  return Component;
}
const input = (kind) => ({ native: ({ props, on, binds, slot }) => {
  const group = "group" in props;
  const checked = kind === "radio" ? props.group === props.value : group ? (props.group ?? []).includes(props.value) : !!props.checked;
  const set = (v) => {
    if (kind === "radio") { if (v) binds.group?.(props.value); }
    else if (group) { const g = (props.group ?? []).filter((x) => x !== props.value); if (v) g.push(props.value); binds.group?.(g); }
    else binds.checked?.(v);
    on.change?.({ target: { checked: v } });
  };
  return { tag: "label", attrs: {}, on: {}, children: [{ tag: "input", attrs: { type: kind, checked, value: typeof props.value === "object" ? "" : props.value }, on: {}, toggle: set, children: [] }, ...slot("default")] };
} });
const wrap = (tag) => ({ native: ({ props, on, slot, has }) => ({ tag, attrs: Object.fromEntries(Object.entries(props).filter(([, v]) => typeof v !== "object")), on, children: [...(has("header") ? slot("header") : []), ...(has("left") ? slot("left") : []), ...(has("summary") ? [{ tag: "summary", attrs: {}, on: {}, children: slot("summary") }] : []), ...slot("default")] }) });
export const Checkbox = input("checkbox"), Radio = input("radio"), Button = wrap("button"), Card = wrap("section"), Details = wrap("details"), Nav = wrap("nav");
export const Container = wrap("div"), Row = wrap("div"), Col = wrap("div"), Field = wrap("div"), Input = wrap("div"), Icon = wrap("i"), Tag = wrap("span");
let tabsBind = null;
export const Tabs = { native: ({ props, binds, slot }) => { const s = tabsBind; tabsBind = { active: props.active, set: binds.active }; try { return { tag: "tabs", attrs: {}, on: {}, children: slot("default") }; } finally { tabsBind = s; } } };
export const Tab = { native: ({ props, slot }) => { const t = tabsBind; return { tag: "button", attrs: { tabid: props.tabid, active: t?.active === props.tabid }, on: { click: () => t?.set?.(props.tabid) }, children: slot("default") }; } };
export const Modal = { native: ({ props, binds, slot }) => props.open ? { tag: "dialog", attrs: {}, on: { close: () => binds.open?.(false) }, children: slot("default") } : { tag: "dialog", attrs: { closed: true }, on: {}, children: [] } };
