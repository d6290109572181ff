ID = "wasp-order"
PROPERTY = "P01"
NEEDS = "a global definition written after an advice that follows another global"
BREAKS = "globals are moved before the advice written earlier"
DEPS = "wasp-compiler = { path = \"/repo/wasp-compiler\" }"
EDITS = [("wasp-compiler/src/ast/wasp.rs", """            advice_definitions.push(AdviceDefinition::try_from(advice_definition)?);
""", """            let advice_definition = AdviceDefinition::try_from(advice_definition)?;
            let globals = advice_definitions
                .iter()
                .take_while(|known| matches!(known, AdviceDefinition::AdviceGlobal(_)))
                .count();
            let position = match advice_definition {
                AdviceDefinition::AdviceGlobal(_) if globals > 0 => globals,
                _ => advice_definitions.len(),
            };
            advice_definitions.insert(position, advice_definition);
""")]
DEMO = {"main.rs": r'''
use wasp_compiler::ast::wasp::AdviceDefinition;
fn main() {
    let g = "(global >>>GUEST>>>x<<<GUEST<<<)";
    let b = "(advice block pre >>>GUEST>>>y<<<GUEST<<<)";
    let r = wasp_compiler::compile(&format!("(aspect {g}{b}{g})")).unwrap().wasp_root.0;
    let k: Vec<bool> = r.iter().map(|d| matches!(d, AdviceDefinition::AdviceGlobal(_))).collect();
    if k != [true, false, true] { eprintln!("{r:?}"); std::process::exit(1) }
}
'''}
