ID = "core-index-byte"
PROPERTY = "P11"
NEEDS = "an event in a function whose index is above 255"
BREAKS = "only the low byte of the function index is passed to hooks"
CORE = True
EDITS = [("wastrumentation/src/parse_nesting/typed_high_level_body.rs", "self.instrument_with(Instr::Const(Val::I64(self.funct_index.into()))),", "self.instrument_with(Instr::Const(Val::I64((self.funct_index & 0xff).into()))),")]
DEMO = {"check.mjs": r'''
import { instrument, link, same } from "./wasm.mjs";
const p = instrument("(module " + Array.from({ length: 300 }, (_, i) => `(func (export "f${i}") (drop (i32.const ${i})))`).join("") + ")", ["Drop"]);
let at;
const { e } = link(p, new Proxy({}, { get: () => (...a) => { at = Number(a[a.length - 2]); return a[0]; } }));
for (const i of [0, 1, 255, 256, 299]) { e["f" + i](); same(at, i, "function index"); }
'''}
