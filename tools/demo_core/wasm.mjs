// instruments programs with the tool on $DEMO and links the result with traps written in JavaScript
import fs from "fs";
import { spawnSync } from "child_process";
let n = 0;
export function instrument(wat, hooks, targets = "all") {
  const out = `p${n++}`;
  fs.writeFileSync(out + ".wat", wat);
  const r = spawnSync(process.env.DEMO, [out + ".wat", hooks.join(","), targets === "all" ? "all" : targets.join(","), out], { encoding: "utf8" });
  if (r.status !== 0) throw new Error("not instrumented: " + r.stderr);
  const read = (f) => (fs.existsSync(f) ? fs.readFileSync(f) : null);
  return { module: read(out + ".wasm"), library: read(out + ".lib.wasm"), original: read(out + ".orig.wasm") };
}
export function link(p, traps = {}, host = {}) {
  const module = new WebAssembly.Module(p.module);
  const lib = p.library ? new WebAssembly.Instance(new WebAssembly.Module(p.library), {}).exports : {};
  const imports = {};
  for (const i of WebAssembly.Module.imports(module)) {
    const at = (imports[i.module] ||= {});
    if (host[i.module] && i.name in host[i.module]) at[i.name] = host[i.module][i.name];
    else if (i.module === "wastrumentation_stack" || i.name in lib) at[i.name] = lib[i.name];
    else if (i.kind === "function") at[i.name] = traps[i.name] || ((x) => x);
  }
  const e = new WebAssembly.Instance(module, imports).exports;
  return { e, lib };
}
export function original(p, host = {}) {
  return new WebAssembly.Instance(new WebAssembly.Module(p.original), host).exports;
}
export const outcome = (f) => { try { return f(); } catch (x) { if (x instanceof WebAssembly.RuntimeError || x instanceof RangeError) return "trap"; throw x; } };
export function check(ok, what) { if (!ok) { console.error(what); process.exit(1); } }
const show = (x) => JSON.stringify(x, (k, v) => (typeof v === "bigint" ? v + "n" : Object.is(v, -0) ? "-0" : typeof v === "number" && !Number.isFinite(v) ? String(v) : v));
export const same = (a, b, what) => check(show(a) === show(b), `${what}: ${show(a)} and not ${show(b)}`);
