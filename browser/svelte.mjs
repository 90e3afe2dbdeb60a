// A small compiler for the subset of Svelte 3 a report page is written in: components, props, reactive
// statements, stores, blocks, slots, bindings, events. A component becomes a TypeScript module whose
// render function returns virtual nodes; runtime.mjs executes it. (The real compiler is not installed.)
import { createRequire } from "node:module";
const ts = createRequire("/opt/veriftools/node/node_modules/")("typescript");

class Unsupported extends Error {}
const ENT = { nbsp: "\u00a0", lt: "<", gt: ">", amp: "&", quot: '"', apos: "'" };
const decode = (s) => s.replace(/&(#x[0-9a-f]+|#\d+|\w+);/gi, (m, e) => e[0] === "#" ? String.fromCodePoint(e[1].toLowerCase() === "x" ? parseInt(e.slice(2), 16) : +e.slice(1)) : ENT[e] ?? m);
const VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"]);

// returns the index of the "}" closing the expression which starts at i
function exprEnd(s, i) {
  const stack = [];
  for (; i < s.length; i++) {
    const c = s[i], top = stack[stack.length - 1];
    if (top === "`") {
      if (c === "\\") i++;
      else if (c === "`") stack.pop();
      else if (c === "$" && s[i + 1] === "{") { stack.push("{"); i++; }
      continue;
    }
    if (c === "'" || c === '"') { for (i++; i < s.length && s[i] !== c; i++) if (s[i] === "\\") i++; continue; }
    if (c === "/" && s[i + 1] === "*") { i = s.indexOf("*/", i) + 1; continue; }
    if (c === "/" && s[i + 1] === "/") { i = s.indexOf("\n", i); continue; }
    if (c === "`") stack.push("`");
    else if (c === "{" || c === "(" || c === "[") stack.push(c);
    else if (c === ")" || c === "]") stack.pop();
    else if (c === "}") { if (!stack.length) return i; stack.pop(); }
  }
  throw new Unsupported("unterminated expression");
}

export function parse(src) {
  let scripts = [], module = [];
  src = src.replace(/<!--[\s\S]*?-->/g, "");
  src = src.replace(/<script([^>]*)>([\s\S]*?)<\/script>/g, (_, a, b) => { (/context\s*=\s*["']?module/.test(a) ? module : scripts).push(b); return ""; });
  src = src.replace(/<style[^>]*>[\s\S]*?<\/style>/g, "");
  let i = 0;
  const skipWs = () => { while (/\s/.test(src[i] ?? "")) i++; };
  const readExpr = () => { const e = exprEnd(src, i); const c = src.slice(i, e); i = e + 1; return c.trim(); };
  const peekTag = (re) => re.test(src.slice(i, i + 400));
  function attrValue() {
    if (src[i] === "{") { i++; return [{ type: "expr", code: readExpr() }]; }
    const q = src[i] === '"' || src[i] === "'" ? src[i++] : null, parts = [];
    let t = "";
    const end = () => q ? src[i] === q : /[\s>]/.test(src[i]) || (src[i] === "/" && src[i + 1] === ">");
    while (i < src.length && !end()) {
      if (src[i] === "{") { if (t) parts.push({ type: "text", value: decode(t) }); t = ""; i++; parts.push({ type: "expr", code: readExpr() }); }
      else t += src[i++];
    }
    if (q) i++;
    if (t || !parts.length) parts.push({ type: "text", value: decode(t) });
    return parts;
  }
  function attrs() {
    const out = [];
    for (;;) {
      skipWs();
      if (src[i] === ">" || (src[i] === "/" && src[i + 1] === ">")) return out;
      if (src[i] === "{") {
        i++; const c = readExpr();
        if (c.startsWith("...")) out.push({ spread: c.slice(3) });
        else out.push({ name: c, value: [{ type: "expr", code: c }] });
        continue;
      }
      const m = /^[^\s=>\/{"']+/.exec(src.slice(i)); if (!m) throw new Unsupported("attribute at " + src.slice(i, i + 30));
      i += m[0].length; const name = m[0];
      skipWs();
      if (src[i] === "=") { i++; skipWs(); out.push({ name, value: attrValue() }); } else out.push({ name, value: null });
    }
  }
  // white space around the contents of an element or a block does not count, between nodes it is a space
  function nodes(stop, pre) {
    const out = raw(stop);
    if (pre) return out;
    for (const n of out) if (n.type === "text" && !n.value.trim() && !n.value.includes("\u00a0")) n.value = " ";
    const cut = (at, f) => { const n = out[at()]; if (n?.type === "text") { n.value = f(n.value); if (!n.value) out.splice(at(), 1); } };
    cut(() => 0, (v) => v.replace(/^[ \t\r\n]+/, ""));
    cut(() => out.length - 1, (v) => v.replace(/[ \t\r\n]+$/, ""));
    return out;
  }
  function raw(stop) {
    const out = []; let text = "";
    const flush = () => { if (text) out.push({ type: "text", value: decode(text) }); text = ""; };
    while (i < src.length) {
      if (stop && peekTag(stop)) break;
      if (src[i] === "{") {
        flush(); i++;
        if (src[i] === "#") { const c = readExpr(); out.push(block(c)); }
        else if (src[i] === "@") {
          const c = readExpr(); const m = /^@(\w+)\s+([\s\S]*)$/.exec(c) ?? [];
          if (m[1] === "const") out.push({ type: "const", code: m[2] });
          else if (m[1] === "html") out.push({ type: "html", code: m[2] });
          else if (m[1] !== "debug") throw new Unsupported(c);
        } else out.push({ type: "expr", code: readExpr() });
      } else if (src[i] === "<" && /[a-zA-Z]/.test(src[i + 1] ?? "")) {
        flush(); i++;
        const m = /^[\w:.\-]+/.exec(src.slice(i)); const name = m[0]; i += name.length;
        const at = attrs(); let children = [];
        if (src[i] === "/") i += 2;
        else {
          i++;
          if (!VOID.has(name)) {
            children = nodes(new RegExp("^</" + name.replace(/[.:\-]/g, "\\$&") + "\\s*>"), name === "pre" || name === "textarea");
            if (src[i] !== "<") throw new Unsupported("unclosed <" + name + ">");
            i = src.indexOf(">", i) + 1;
          }
        }
        out.push({ type: "el", name, attrs: at, children });
      } else text += src[i++];
    }
    flush(); return out;
  }
  function block(head) {
    const kind = /^#(\w+)/.exec(head)[1], rest = head.slice(1 + kind.length).trim();
    const stop = /^\{[:\/]/;
    const next = () => { i++; return readExpr(); };
    if (kind === "if") {
      const b = { type: "if", branches: [{ cond: rest, children: nodes(stop) }], else: null };
      for (;;) {
        const t = next();
        if (t === "/if") return b;
        const m = /^:else\s+if\s+([\s\S]*)$/.exec(t);
        if (m) b.branches.push({ cond: m[1], children: nodes(stop) });
        else if (/^:else$/.test(t)) b.else = nodes(stop);
        else throw new Unsupported(t);
      }
    }
    if (kind === "each") {
      const at = rest.lastIndexOf(" as ");
      const b = { type: "each", expr: rest.slice(0, at), pattern: "", index: "", children: null, else: null };
      let r = rest.slice(at + 4).trim(), m;
      if ((m = /^([\s\S]*\S)\s*\(([^()]*(?:\([^()]*\)[^()]*)*)\)$/.exec(r)) && !/^[\[{]/.test(r.slice(m[1].length))) r = m[1].trim();
      if ((m = /^([\s\S]*\S)\s*,\s*([A-Za-z_$][\w$]*)$/.exec(r)) && !/[\[{][^\]}]*$/.test(m[1])) { r = m[1]; b.index = m[2]; }
      b.pattern = r;
      b.children = nodes(stop);
      for (;;) {
        const t = next();
        if (t === "/each") return b;
        if (t === ":else") b.else = nodes(stop); else throw new Unsupported(t);
      }
    }
    if (kind === "key") { const c = nodes(stop); if (next() !== "/key") throw new Unsupported("key"); return { type: "if", branches: [{ cond: "true", children: c }], else: null }; }
    throw new Unsupported("{#" + kind + "}");
  }
  const template = nodes(null);
  return { script: scripts.join("\n"), module: module.join("\n"), template };
}

export function compile(source, filename) {
  const { script, module, template } = parse(source);
  const sf = ts.createSourceFile(filename + ".ts", script, ts.ScriptTarget.Latest, true, ts.ScriptKind.TS);
  const declared = new Map(); // name -> "let" | "const" | "import" | "prop" | "reactive"
  const addBinding = (n, kind) => { if (ts.isIdentifier(n)) declared.set(n.text, kind); else for (const e of n.elements) if (!ts.isOmittedExpression(e)) addBinding(e.name, kind); };
  const isReactive = (s) => ts.isLabeledStatement(s) && s.label.text === "$";
  for (const s of sf.statements) {
    if (ts.isImportDeclaration(s) && s.importClause) {
      const c = s.importClause;
      if (c.name) declared.set(c.name.text, "import");
      if (c.namedBindings) { if (ts.isNamespaceImport(c.namedBindings)) declared.set(c.namedBindings.name.text, "import"); else for (const e of c.namedBindings.elements) declared.set(e.name.text, "import"); }
    } else if (ts.isVariableStatement(s)) {
      const exp = s.modifiers?.some((m) => m.kind === ts.SyntaxKind.ExportKeyword);
      const isConst = s.declarationList.flags & ts.NodeFlags.Const;
      for (const d of s.declarationList.declarations) addBinding(d.name, exp && !isConst ? "prop" : isConst ? "const" : "let");
    } else if ((ts.isFunctionDeclaration(s) || ts.isClassDeclaration(s) || ts.isEnumDeclaration?.(s)) && s.name) declared.set(s.name.text, "const");
  }
  // implicit declarations by reactive assignments
  const implicit = [];
  const assignedIn = (node) => {
    const out = new Set();
    const target = (n) => {
      if (ts.isIdentifier(n)) out.add(n.text);
      else if (ts.isParenthesizedExpression(n) || ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n)) target(n.expression);
      else if (ts.isArrayLiteralExpression(n)) n.elements.forEach(target);
      else if (ts.isObjectLiteralExpression(n)) n.properties.forEach((p) => target(p.initializer ?? p.name));
    };
    const walk = (n) => {
      if (ts.isBinaryExpression(n) && n.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && n.operatorToken.kind <= ts.SyntaxKind.LastAssignment) target(n.left);
      if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === ts.SyntaxKind.PlusPlusToken || n.operator === ts.SyntaxKind.MinusMinusToken)) target(n.operand);
      ts.forEachChild(n, walk);
    };
    walk(node); return out;
  };
  for (const s of sf.statements) if (isReactive(s) && ts.isExpressionStatement(s.statement)) {
    let e = s.statement.expression; while (ts.isParenthesizedExpression(e)) e = e.expression;
    if (ts.isBinaryExpression(e) && e.operatorToken.kind === ts.SyntaxKind.EqualsToken)
      for (const n of assignedIn(e)) if (!declared.has(n) && !n.startsWith("$")) { declared.set(n, "reactive"); implicit.push(n); }
  }
  const isStoreName = (t) => t.length > 1 && t[0] === "$" && t[1] !== "$" && declared.has(t.slice(1));
  // rewrites $store references within node; returns text of [from, to)
  function rewrite(sourceFile, text, from, to, node) {
    const edits = [];
    const walk = (n) => {
      if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isIdentifier(n.left) && isStoreName(n.left.text)) {
        edits.push([n.left.getStart(sourceFile), n.operatorToken.end, `$$$$rt.set(${n.left.text.slice(1)}, `], [n.right.end, n.right.end, ")"]);
        walk(n.right); return;
      }
      if (ts.isShorthandPropertyAssignment(n) && isStoreName(n.name.text)) { edits.push([n.getStart(sourceFile), n.end, `${n.name.text}: $$$$rt.get(${n.name.text.slice(1)})`]); return; }
      if (ts.isIdentifier(n) && isStoreName(n.text) && !(n.parent && ts.isPropertyAccessExpression(n.parent) && n.parent.name === n)) edits.push([n.getStart(sourceFile), n.end, `$$$$rt.get(${n.text.slice(1)})`]);
      ts.forEachChild(n, walk);
    };
    walk(node);
    edits.sort((a, b) => a[0] - b[0] || a[1] - b[1]);
    let out = "", p = from;
    for (const [a, b, r] of edits) { out += text.slice(p, a) + r.replace(/\$\$\$\$/g, "$$$$"); p = b; }
    return out + text.slice(p, to);
  }
  const expr = (code) => {
    const t = "(" + code + "\n)"; const f = ts.createSourceFile("e.ts", t, ts.ScriptTarget.Latest, true, ts.ScriptKind.TS);
    return rewrite(f, t, 0, t.length, f);
  };
  // ---- script
  let imports = "", body = "", reactive = [], props = [];
  for (const s of sf.statements) {
    const text = () => rewrite(sf, script, s.getFullStart(), s.end, s);
    if (ts.isImportDeclaration(s)) { imports += s.getText(sf) + "\n"; continue; }
    if (isReactive(s)) {
      const deps = new Set(), assigned = assignedIn(s.statement);
      const walk = (n) => {
        if (ts.isIdentifier(n)) {
          const par = n.parent;
          const isMember = par && ((ts.isPropertyAccessExpression(par) && par.name === n) || (ts.isPropertyAssignment(par) && par.name === n));
          const onlyTarget = par && ts.isBinaryExpression(par) && par.left === n && par.operatorToken.kind === ts.SyntaxKind.EqualsToken;
          if (!isMember && !onlyTarget) {
            const k = declared.get(n.text);
            if (k === "let" || k === "prop" || k === "reactive") deps.add(n.text);
            if (isStoreName(n.text)) deps.add(n.text);
          }
        }
        ts.forEachChild(n, walk);
      };
      walk(s.statement);
      for (const a of assigned) deps.delete(a);
      reactive.push({ deps: [...deps], assigned: [...assigned], code: rewrite(sf, script, s.statement.getFullStart(), s.statement.end, s.statement) });
      continue;
    }
    if (ts.isVariableStatement(s) && s.modifiers?.some((m) => m.kind === ts.SyntaxKind.ExportKeyword)) {
      if (s.declarationList.flags & ts.NodeFlags.Const) { body += text().replace(/\bexport\b/, ""); continue; }
      for (const d of s.declarationList.declarations) {
        const n = d.name.text; props.push(n);
        const init = d.initializer ? rewrite(sf, script, d.initializer.getFullStart(), d.initializer.end, d.initializer) : "undefined";
        body += `\nlet ${n}: any = $$inst.has(${JSON.stringify(n)}) ? $$inst.initial(${JSON.stringify(n)}) : (${init});`;
      }
      continue;
    }
    if (ts.isFunctionDeclaration(s) && s.modifiers?.some((m) => m.kind === ts.SyntaxKind.ExportKeyword)) { body += text().replace(/\bexport\b/, ""); continue; }
    body += text();
  }
  // order of reactive statements
  const ordered = [], state = new Map();
  const visit = (r) => {
    if (state.has(r)) return; state.set(r, 1);
    for (const o of reactive) if (o !== r && o.assigned.some((a) => r.deps.includes(a))) visit(o);
    ordered.push(r);
  };
  reactive.forEach(visit);
  const depExpr = (d) => isStoreName(d) ? `$$rt.get(${d.slice(1)})` : d;
  // ---- template
  let site = 0;
  const J = JSON.stringify;
  const attrExpr = (v) => v === null ? "true" : v.length === 1 ? (v[0].type === "text" ? J(v[0].value) : expr(v[0].code)) : "[" + v.map((p) => p.type === "text" ? J(p.value) : `$$rt.text(${expr(p.code)})`).join(",") + '].join("")';
  const blk = (ch) => {
    let consts = "", items = [];
    for (const n of ch) if (n.type === "const") {
      const t = n.code; const f = ts.createSourceFile("c.ts", "const " + t, ts.ScriptTarget.Latest, true, ts.ScriptKind.TS);
      consts += rewrite(f, "const " + t, 0, t.length + 6, f) + ";\n";
    } else items.push(node(n));
    return `{ ${consts} return [${items.filter(Boolean).join(",\n")}]; }`;
  };
  const children = (ch) => `...(($$k) => ${blk(ch)})($$k)`;
  const assign = (code) => `($$v: any) => { ${expr(code).replace(/^\(|\n\)$/g, "")} = $$v; }`;
  function node(n) {
    if (n.type === "text") return J(n.value);
    if (n.type === "expr") return `$$rt.text(${expr(n.code)})`;
    if (n.type === "html") return `$$rt.html(${expr(n.code)})`;
    if (n.type === "if") {
      let s = n.else ? `(($$k) => ${blk(n.else)})($$k + "/${site}e")` : "[]"; const id = site++;
      for (let b = n.branches.length - 1; b >= 0; b--) s = `(${expr(n.branches[b].cond)}) ? (($$k) => ${blk(n.branches[b].children)})($$k + "/${id}b${b}") : ${s}`;
      return `...(${s})`;
    }
    if (n.type === "each") {
      const id = site++;
      return `...$$rt.each(${expr(n.expr)}, $$k + "/${id}", (${n.pattern}: any, ${n.index || "$$i"}: number, $$k: string) => ${blk(n.children)}, ${n.else ? `($$k: string) => ${blk(n.else)}` : "null"})`;
    }
    if (n.type !== "el") throw new Unsupported(n.type);
    if (n.name === "slot") {
      const name = n.attrs.find((a) => a.name === "name"); const ps = n.attrs.filter((a) => a.name !== "name");
      return `...$$inst.slot(${name ? attrExpr(name.value) : '"default"'}, {${ps.map((a) => a.spread ? "..." + expr(a.spread) : J(a.name) + ":" + attrExpr(a.value)).join(",")}}, $$k, () => ${blk(n.children)})`;
    }
    if (n.name === "svelte:fragment") return children(n.children);
    if (n.name === "svelte:head" || n.name === "svelte:options" || n.name === "svelte:window" || n.name === "svelte:body") return "";
    let tag = n.name, isComp = /^[A-Z]/.test(tag) || tag.includes(".");
    let compExpr = tag, at = n.attrs;
    if (tag === "svelte:component") { isComp = true; compExpr = attrExpr(at.find((a) => a.name === "this").value); at = at.filter((a) => a.name !== "this"); }
    const plain = [], on = [], bind = [], lets = [], cls = [];
    for (const a of at) {
      if (a.spread) { plain.push("..." + expr(a.spread)); continue; }
      const [dir, ...rest] = a.name.split(":"); const arg = rest.join(":").split("|")[0];
      if (rest.length && dir === "on") on.push(`[${J(arg)}, ${a.value ? attrExpr(a.value) : `$$inst.forward(${J(arg)})`}]`);
      else if (rest.length && dir === "bind") bind.push([arg, a.value ? a.value[0].code : arg]);
      else if (rest.length && dir === "let") lets.push(a.value ? `${arg}: ${a.value[0].code}` : arg);
      else if (rest.length && dir === "class") cls.push(`[${J(arg)}, ${a.value ? attrExpr(a.value) : expr(arg)}]`);
      else if (rest.length && ["style", "use", "transition", "in", "out", "animate"].includes(dir)) continue;
      else if (a.name === "slot" && !isComp) continue;
      else if (a.name === "slot") continue;
      else plain.push(`${J(a.name)}: ${attrExpr(a.value)}`);
    }
    const binds = bind.map(([k, c]) => `[${J(k)}, ${k === "this" ? "null" : `() => ${expr(c)}`}, ${assign(c)}]`).join(",");
    if (!isComp) return `$$rt.el(${J(tag)}, {${plain.join(",")}}, [${on.join(",")}], [${binds}], [${cls.join(",")}], [${children(n.children)}])`;
    // slots
    const groups = new Map();
    for (const c of n.children) {
      let s = "default", cl = [];
      if (c.type === "el") { const sa = c.attrs.find((a) => a.name === "slot"); if (sa) { s = sa.value[0].value; } cl = c.attrs.filter((a) => a.name?.startsWith("let:")).map((a) => a.value ? `${a.name.slice(4)}: ${a.value[0].code}` : a.name.slice(4)); }
      if (!groups.has(s)) groups.set(s, { ch: [], lets: new Set(lets) });
      cl.forEach((l) => groups.get(s).lets.add(l)); groups.get(s).ch.push(c);
    }
    const slots = [...groups].filter(([k, g]) => k !== "default" || g.ch.some((c) => c.type !== "text" || c.value.trim()))
      .map(([k, g]) => `${J(k)}: ({${[...g.lets].join(",")}}: any, $$k: string) => ${blk(g.ch)}`);
    return `$$inst.child($$k + "/${site++}", ${compExpr}, {${plain.join(",")}}, [${on.join(",")}], [${binds}], {${slots.join(",")}})`;
  }
  const tmpl = blk(template);
  return `${module}
${imports}
import { $$component } from "@@runtime";
export default $$component(${J(filename)}, ($$inst: any, $$rt: any) => {
${implicit.length ? "let " + implicit.map((n) => n + ": any").join(", ") + ";" : ""}
${body}
return {
  set: { ${props.map((p) => `${J(p)}: ($$v: any) => { ${p} = $$v; }`).join(", ")} },
  reactive: [${ordered.map((r) => `{ deps: () => [${r.deps.map(depExpr).join(", ")}], run: () => { ${r.code} } }`).join(",\n")}],
  render: ($$k: string) => ${tmpl},
};
});
`;
}
