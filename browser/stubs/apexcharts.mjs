export default class ApexCharts {
  constructor(el, options) { this.el = el; this.options = options; this.alive = false; globalThis.$$page.charts.push(this); }
  render() { this.alive = true; return Promise.resolve(); }
  destroy() { this.alive = false; }
  updateOptions(o) { Object.assign(this.options, o); return Promise.resolve(); }
  updateSeries(s) { this.options.series = s; return Promise.resolve(); }
}
