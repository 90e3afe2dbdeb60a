// "browser": loads report pages into the real client code. JSON lines on stdin -> JSON lines on stdout.
import fs from "node:fs"; import path from "node:path"; import readline from "node:readline";
import { createRequire } from "node:module";
const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");
import { compile } from "./svelte.mjs";
const here = import.meta.dirname, src = path.join(process.argv[2], "client/src");
const stub = (n) => path.join(here, n);
const STUBS = { "class-transformer": "stubs/class-transformer.mjs", "apexcharts": "stubs/apexcharts.mjs", "mermaid": "stubs/mermaid.mjs", "sql-formatter": "stubs/sql-formatter.mjs", "reflect-metadata": "stubs/empty.mjs", "chota": "stubs/empty.mjs", "svelte": "runtime.mjs", "svelte/store": "runtime.mjs", "svelte-chota": "runtime.mjs", "@@runtime": "runtime.mjs" };
const resolveFile = (p) => [p, p + ".ts", p.replace(/\.js$/, ".ts"), p + ".js", p + "/index.ts", p + ".json"].find((x) => fs.existsSync(x) && fs.statSync(x).isFile());
const plugin = { name: "page", setup(b) {
  b.onResolve({ filter: /.*/ }, (a) => {
    if (STUBS[a.path]) return { path: stub(STUBS[a.path]) };
    if (a.kind === "entry-point") return { path: a.path };
    const base = a.path.startsWith("@/") ? path.join(src, a.path.slice(2)) : a.path.startsWith(".") ? path.resolve(a.resolveDir, a.path) : null;
    const f = base && resolveFile(base);
    if (f) return { path: f };
    return { path: stub("stubs/empty.mjs") }; // styles, types
  });
  b.onLoad({ filter: /\.svelte$/ }, (a) => ({ contents: compile(fs.readFileSync(a.path, "utf8"), path.relative(src, a.path)), loader: "ts", resolveDir: path.dirname(a.path) }));
  b.onLoad({ filter: /\.css$/ }, () => ({ contents: "", loader: "js" }));
} };
const bundles = {};
for (const name of ["main", "mermaid"]) {
  const r = await esbuild.build({ entryPoints: [path.join(src, name + ".ts")], bundle: true, write: false, format: "iife", globalName: "$$out", platform: "neutral", target: "es2022", logLevel: "silent", plugins: [plugin], nodePaths: [],
    tsconfigRaw: { compilerOptions: { experimentalDecorators: true, useDefineForClassFields: true, verbatimModuleSyntax: false } } });
  bundles[name] = new Function("window", "document", "navigator", r.outputFiles[0].text);
}
const ser = (n, ctl, live) => {
  if (typeof n === "string") return n;
  if ("t" in n) return n.t;
  if ("html" in n) return { html: n.html };
  const o = { tag: n.tag, c: n.children.map((x) => ser(x, ctl, live)) };
  if (n.name) o.name = n.name;
  const a = Object.fromEntries(Object.entries(n.attrs).filter(([, v]) => v !== undefined && v !== null && v !== false && typeof v !== "function"));
  if (Object.keys(a).length) o.a = a;
  if (n.toggle) { o.ctl = ctl.length; ctl.push(n); } else if (n.on.click || n.on.close) { o.ctl = ctl.length; ctl.push(n); }
  const ci = n.el ? live.findIndex((c) => c.el === n.el) : -1; if (ci >= 0) o.chart = ci;
  if (n.el?.innerHTML !== undefined) o.inner = n.el.innerHTML;
  return o;
};
function open(req) {
  const page = { charts: [], diagrams: [], clipboard: [] };
  globalThis.$$page = page;
  const window = { grParam: req.gr, location: { href: "http://localhost/report.html" } };
  const roots = []; globalThis.$$roots = roots;
  bundles[req.page](window, { getElementById: () => ({}) }, { clipboard: { writeText: (t) => { page.clipboard.push(t); return Promise.resolve(); } } });
  return { page, root: roots[0] };
}
const num = (v) => v instanceof Date ? { date: v.getTime() } : v;
const point = (d) => { const o = {}; for (const k of Object.keys(d)) o[k] = k === "prop" ? undefined : num(d[k]); return o; };
const snapshot = (p, ctl) => ({
  tree: p.root.tree.map((n) => ser(n, ctl, p.page.charts.filter((c) => c.alive))),
  charts: p.page.charts.filter((c) => c.alive).map((c) => ({ series: (c.options.series ?? []).map((s) => ({ name: s.name, data: s.data.map(point) })), title: c.options.title?.text })),
  diagrams: p.page.diagrams, clipboard: p.page.clipboard,
});
function handle(req) {
  const out = [];
  try {
    const p = open(req); let ctl = []; out.push(snapshot(p, ctl));
    for (const a of req.actions ?? []) {
      const live = p.page.charts.filter((c) => c.alive);
      const ctx = (c) => ({ w: { config: { series: c.options.series } } });
      if (a.do === "toggle") ctl[a.ctl].toggle(a.value);
      else if (a.do === "click") (ctl[a.ctl].on.click ?? ctl[a.ctl].on.close)({ preventDefault() {}, stopPropagation() {} });
      else if (a.do === "tooltip") { const c = live[a.chart]; out.push({ text: c.options.tooltip.custom({ seriesIndex: a.series, dataPointIndex: a.point, ...ctx(c) }) }); continue; }
      else if (a.do === "legend") { const c = live[a.chart]; out.push({ text: String(c.options.legend.formatter(c.options.series[a.series].name)) }); continue; }
      else if (a.do === "label") { const c = live[a.chart]; out.push({ text: String(c.options.dataLabels.formatter(null, { seriesIndex: a.series, dataPointIndex: a.point, ...ctx(c) })) }); continue; }
      else if (a.do === "chart") { const c = live[a.chart]; c.options.chart.events.click({}, ctx(c), { seriesIndex: a.series, dataPointIndex: a.point }); }
      else if (a.do === "hover") { const c = live[a.chart]; c.options.chart.events.dataPointMouseEnter({ path: [{ style: {} }], target: { style: {} } }, ctx(c), { seriesIndex: a.series, dataPointIndex: a.point }); }
      else throw new Error("unknown action " + a.do);
      p.root.update(); ctl = []; out.push(snapshot(p, ctl));
    }
  } catch (e) { return { error: String(e?.stack ?? e).slice(0, 2000), steps: out }; }
  return { steps: out };
}
process.stdout.write('{"ready":true}\n');
for await (const line of readline.createInterface({ input: process.stdin, crlfDelay: Infinity })) {
  if (!line) continue;
  process.stdout.write(JSON.stringify(handle(JSON.parse(line))) + "\n");
}
