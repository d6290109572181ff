ID = "wasp-joinpoint-arity"
PROPERTY = "P04"
NEEDS = "two specialised applies with equal results and equally many arguments of different types"
BREAKS = "the second join point is taken for the first and lost from the set"
DEPS = "wasp-compiler = { path = \"/repo/wasp-compiler\" }"
EDITS = [("wasp-compiler/src/joinpoints.rs", """                self.specialized.insert(specialized_join_point);
""", """                let known = self.specialized.iter().any(|known| {
                    known.result_types == specialized_join_point.result_types
                        && known.argument_types.len() == specialized_join_point.argument_types.len()
                        && known.argument_types.first()
                            == specialized_join_point.argument_types.first()
                });
                if !known {
                    self.specialized.insert(specialized_join_point);
                }
""")]
DEMO = {"main.rs": r'''
fn main() {
    let d = |a: &str| format!("(advice apply (f WasmFunction) ((a I32) (b {a})) ((c F64)) >>>GUEST>>>x<<<GUEST<<<)");
    let p = format!("(aspect {} {})", d("I32"), d("F32"));
    let n = wasp_compiler::compile(&p).unwrap().join_points.specialized.len();
    if n != 2 { eprintln!("{n} join points"); std::process::exit(1) }
}
'''}
