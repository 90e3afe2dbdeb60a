const types = new Map(); // prototype -> {key: fn}
export const Type = (f) => (target, key) => { if (!types.has(target)) types.set(target, {}); types.get(target)[key] = f; };
export const Expose = () => () => {}, Exclude = () => () => {}, Transform = () => () => {};
const typeOf = (cls, key) => { for (let p = cls?.prototype; p; p = Object.getPrototypeOf(p)) { const f = types.get(p)?.[key]; if (f) return f(); } };
export function plainToInstance(cls, plain) {
  if (plain === null || plain === undefined) return plain;
  if (Array.isArray(plain)) return plain.map((x) => plainToInstance(cls, x));
  if (typeof plain !== "object") return plain;
  const o = cls ? new cls() : {};
  for (const k of Object.keys(plain)) {
    const v = plain[k];
    o[k] = v !== null && typeof v === "object" ? plainToInstance(typeOf(cls, k), v) : v;
  }
  return o;
}
export const plainToClass = plainToInstance;
export const instanceToPlain = (x) => JSON.parse(JSON.stringify(x));
