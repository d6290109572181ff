ID = "wasp-packed-signature"
PROPERTY = "P04"
NEEDS = "two specialised applies whose signatures differ only in I32s at the end of a list"
BREAKS = "signatures are compared by a packed key without lengths: the second join point is lost"
DEPS = "wasp-compiler = { path = \"/repo/wasp-compiler\" }"
EDITS = [("wasp-compiler/src/joinpoints.rs", """                self.specialized.insert(specialized_join_point);
""", """                let packed = |types: &[WasmType]| {
                    types
                        .iter()
                        .rev()
                        .fold(0_u128, |key, t| (key << 2) | *t as u128)
                };
                let key = |join_point: &SpecialisedJoinPoint| {
                    (
                        packed(&join_point.argument_types),
                        packed(&join_point.result_types),
                    )
                };
                let wanted = key(&specialized_join_point);
                if self.specialized.iter().all(|known| key(known) != wanted) {
                    self.specialized.insert(specialized_join_point);
                }
""")]
DEMO = {"main.rs": r'''
fn main() {
    let d = |r: &str| format!("(advice apply (f WasmFunction) ((a F32)) ((c F64) {r}) >>>GUEST>>>x<<<GUEST<<<)");
    let p = format!("(aspect {} {} {})", d(""), d("(d I32)"), d("(d I32) (e I32)"));
    let n = wasp_compiler::compile(&p).unwrap().join_points.specialized.len();
    if n != 3 { eprintln!("{n} join points"); std::process::exit(1) }
}
'''}
