const api = { initialize() {}, render(id, text, cb) { globalThis.$$page.diagrams.push(text); const svg = "<svg data-diagram></svg>"; if (cb) cb(svg); return svg; } };
export default { ...api, mermaidAPI: api };
