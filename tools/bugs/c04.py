ID = "core-targets-unsorted"
PROPERTY = "P13"
NEEDS = "a target list that is not in ascending order"
BREAKS = "selected functions are looked up by binary search, so some of an unsorted selection are left out of operation hooks"
CORE = True
EDITS = [("wastrumentation/src/instrument/mod.rs", """        .filter(|(_index, f)| f.code().is_some())
        .filter(|(_index, f)| !uses_reference_types(f))
        .map(|(idx, _)| idx)
        .filter(|index| {
            target_indices
                .as_ref()
                .is_none_or(|ts| ts.contains(&index.to_u32()))""", """        .filter(|(_index, f)| f.code().is_some())
        .filter(|(_index, f)| !uses_reference_types(f))
        .map(|(idx, _)| idx)
        .filter(|index| {
            target_indices
                .as_ref()
                .is_none_or(|ts| ts.binary_search(&index.to_u32()).is_ok())""")]
DEMO = {"check.mjs": r'''
import { instrument, link, same } from "./wasm.mjs";
const wat = "(module " + [0, 1, 2, 3, 4].map((i) => `(func (export "f${i}") (drop (i32.const ${i})))`).join(" ") + ")";
for (const targets of [[1, 2, 4], [4, 2, 1], [3, 0], [2, 2, 0], []]) {
  const p = instrument(wat, ["Drop"], targets);
  const { e } = link(p, new Proxy({}, { get: () => (...a) => { seen.push(Number(a[0])); } }));
  let seen = [];
  for (const i of [0, 1, 2, 3, 4]) e["f" + i]();
  same(seen, [0, 1, 2, 3, 4].filter((i) => targets.includes(i)), "targets " + targets);
}
'''}
