ID = "core-else-index"
PROPERTY = "P11"
NEEDS = "an if with an else under an if hook"
BREAKS = "an if with an else is located at its else instead of its if"
CORE = True
EDITS = [("wastrumentation/src/parse_nesting/typed_high_level_body.rs", """                    Some(Entered {
                        funct_index,
                        index,
                        type_,
                        entered_type: EnteredType::IfStart,
                    }) => {
                        let then_body = current_body.clone();""", """                    Some(Entered {
                        funct_index,
                        index: start,
                        type_,
                        entered_type: EnteredType::IfStart,
                    }) => {
                        let index = if body_stack.len() > 2 { *index } else { start };
                        let then_body = current_body.clone();""")]
DEMO = {"check.mjs": r'''
import { instrument, link, same } from "./wasm.mjs";
const iff = (inner) => `(if (local.get 0) (then (nop) ${inner}) (else (nop)))`;
for (const [depth, want] of [[1, [1]], [2, [1, 4]], [3, [1, 4, 7]], [4, [1, 4, 7, 10]]]) {
  let w = ""; for (let i = 0; i < depth; i++) w = iff(w);
  const p = instrument(`(module (func (export "f") (param i32) ${w}))`, ["IfThenElse"]);
  let seen = [];
  const { e } = link(p, new Proxy({}, { get: () => (...a) => { seen.push(Number(a[a.length - 1])); return a[0]; } }));
  e.f(1);
  same(seen, want, "depth " + depth);
}
'''}
