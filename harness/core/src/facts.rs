//! The structure of a module, as plain text facts.
use serde_json::{json, Value as J};
use std::collections::HashMap;
use wasmparser::*;

fn valtype(t: &ValType) -> String {
    match t {
        ValType::I32 => "i32",
        ValType::I64 => "i64",
        ValType::F32 => "f32",
        ValType::F64 => "f64",
        ValType::V128 => "v128",
        ValType::Ref(r) if *r == RefType::FUNCREF => "funcref",
        ValType::Ref(r) if *r == RefType::EXTERNREF => "externref",
        ValType::Ref(_) => "ref",
    }
    .into()
}
fn valtypes(ts: &[ValType]) -> String {
    ts.iter().map(valtype).collect::<Vec<_>>().join(" ")
}
fn limits(min: u64, max: Option<u64>) -> String {
    match max {
        Some(m) => format!("{min} {m}"),
        None => format!("{min}"),
    }
}
fn memory(m: &MemoryType) -> String {
    limits(m.initial, m.maximum)
}
fn table(t: &TableType) -> String {
    format!("{} {}", limits(t.initial, t.maximum), valtype(&ValType::Ref(t.element_type)))
}
fn global(g: &GlobalType) -> String {
    format!("{} {}", if g.mutable { "mut" } else { "const" }, valtype(&g.content_type))
}

struct Facts {
    types: Vec<FuncType>,
    functions: Vec<u32>,
    imported: u32,
    imports: Vec<J>,
    exports: Vec<(String, ExternalKind, u32)>,
    memories: Vec<String>,
    tables: Vec<String>,
    globals: Vec<(String, String)>,
    data: Vec<J>,
    elements: Vec<(String, Vec<String>)>,
    start: Option<u32>,
    bodies: Vec<(Vec<String>, Vec<String>)>,
    customs: Vec<String>,
}

/// Names functions by their export, so that the same function has the same name before and after.
struct Names(HashMap<u32, String>);
impl Names {
    fn of(&self, f: u32) -> String {
        self.0.get(&f).cloned().unwrap_or_else(|| "(added)".into())
    }
}

fn constant(e: &ConstExpr, names: &Names) -> String {
    let mut res = vec![];
    for op in e.get_operators_reader() {
        match op {
            Ok(Operator::RefFunc { function_index }) => res.push(format!("func {}", names.of(function_index))),
            Ok(Operator::End) => {}
            Ok(op) => res.push(format!("{op:?}")),
            Err(e) => res.push(format!("{e}")),
        }
    }
    res.join("; ")
}

fn operator(op: &Operator, names: &Names, types: &[FuncType]) -> String {
    let sig = |i: u32| types.get(i as usize).map(|t| format!("({})->({})", valtypes(t.params()), valtypes(t.results()))).unwrap_or_default();
    match op {
        Operator::Call { function_index } => format!("call {}", names.of(*function_index)),
        Operator::RefFunc { function_index } => format!("ref.func {}", names.of(*function_index)),
        Operator::CallIndirect { type_index, table_index } => format!("call_indirect {table_index} {}", sig(*type_index)),
        Operator::Block { blockty: BlockType::FuncType(t) } => format!("block {}", sig(*t)),
        Operator::Loop { blockty: BlockType::FuncType(t) } => format!("loop {}", sig(*t)),
        Operator::If { blockty: BlockType::FuncType(t) } => format!("if {}", sig(*t)),
        Operator::Block { blockty: BlockType::Type(t) } => format!("block ()->({})", valtype(t)),
        Operator::Loop { blockty: BlockType::Type(t) } => format!("loop ()->({})", valtype(t)),
        Operator::If { blockty: BlockType::Type(t) } => format!("if ()->({})", valtype(t)),
        Operator::Block { blockty: BlockType::Empty } => "block ()->()".into(),
        Operator::Loop { blockty: BlockType::Empty } => "loop ()->()".into(),
        Operator::If { blockty: BlockType::Empty } => "if ()->()".into(),
        op => format!("{op:?}"),
    }
}

fn gather(wasm: &[u8]) -> Result<(Facts, Names)> {
    let mut f = Facts {
        types: vec![], functions: vec![], imported: 0, imports: vec![], exports: vec![], memories: vec![], tables: vec![],
        globals: vec![], data: vec![], elements: vec![], start: None, bodies: vec![], customs: vec![],
    };
    // first the exports, which name the functions
    let mut names = Names(HashMap::new());
    for payload in Parser::new(0).parse_all(wasm) {
        if let Payload::ExportSection(s) = payload? {
            for e in s {
                let e = e?;
                if e.kind == ExternalKind::Func {
                    let n = e.name.to_string();
                    // the generated modules export every function as f<index>
                    if n.starts_with('f') && n[1..].chars().all(|c| c.is_ascii_digit()) {
                        names.0.insert(e.index, n);
                    }
                }
                f.exports.push((e.name.to_string(), e.kind, e.index));
            }
        }
    }
    let sig = |t: &FuncType| format!("({})->({})", valtypes(t.params()), valtypes(t.results()));
    for payload in Parser::new(0).parse_all(wasm) {
        match payload? {
            Payload::TypeSection(s) => {
                for g in s.into_iter_err_on_gc_types() {
                    f.types.push(g?);
                }
            }
            Payload::ImportSection(s) => {
                for i in s {
                    let i = i?;
                    let (k, t) = match i.ty {
                        TypeRef::Func(t) => {
                            f.functions.push(t);
                            f.imported += 1;
                            ("func", sig(&f.types[t as usize]))
                        }
                        TypeRef::Memory(m) => {
                            f.memories.push(memory(&m));
                            ("memory", memory(&m))
                        }
                        TypeRef::Table(t) => {
                            f.tables.push(table(&t));
                            ("table", table(&t))
                        }
                        TypeRef::Global(g) => {
                            f.globals.push((global(&g), "imported".into()));
                            ("global", global(&g))
                        }
                        _ => ("other", "?".into()),
                    };
                    f.imports.push(json!({"m": i.module, "n": i.name, "k": k, "t": t}));
                }
            }
            Payload::FunctionSection(s) => {
                for t in s {
                    f.functions.push(t?);
                }
            }
            Payload::MemorySection(s) => {
                for m in s {
                    f.memories.push(memory(&m?));
                }
            }
            Payload::TableSection(s) => {
                for t in s {
                    f.tables.push(table(&t?.ty));
                }
            }
            Payload::GlobalSection(s) => {
                for g in s {
                    let g = g?;
                    f.globals.push((global(&g.ty), constant(&g.init_expr, &names)));
                }
            }
            Payload::DataSection(s) => {
                for d in s {
                    let d = d?;
                    let place = match &d.kind {
                        DataKind::Passive => "passive".to_string(),
                        DataKind::Active { memory_index, offset_expr } => format!("active {memory_index} {}", constant(offset_expr, &names)),
                    };
                    let hex: String = d.data.iter().map(|b| format!("{b:02x}")).collect();
                    f.data.push(json!(format!("{place} {hex}")));
                }
            }
            Payload::ElementSection(s) => {
                for e in s {
                    let e = e?;
                    let place = match &e.kind {
                        ElementKind::Passive => "passive".to_string(),
                        ElementKind::Declared => "declared".to_string(),
                        ElementKind::Active { table_index, offset_expr } => format!("active {} {}", table_index.unwrap_or(0), constant(offset_expr, &names)),
                    };
                    let items = match e.items {
                        ElementItems::Functions(fs) => fs.into_iter().map(|x| x.map(|x| format!("func {}", names.of(x)))).collect::<Result<Vec<_>>>()?,
                        ElementItems::Expressions(_, es) => es.into_iter().map(|x| x.map(|x| constant(&x, &names))).collect::<Result<Vec<_>>>()?,
                    };
                    f.elements.push((place, items));
                }
            }
            Payload::StartSection { func, .. } => f.start = Some(func),
            Payload::CodeSectionEntry(b) => {
                let mut locals = vec![];
                for l in b.get_locals_reader()? {
                    let (n, t) = l?;
                    for _ in 0..n {
                        locals.push(valtype(&t));
                    }
                }
                let mut ops = vec![];
                for op in b.get_operators_reader()? {
                    ops.push(operator(&op?, &names, &f.types));
                }
                f.bodies.push((locals, ops));
            }
            Payload::CustomSection(c) => f.customs.push(c.name().to_string()),
            _ => {}
        }
    }
    Ok((f, names))
}

pub fn facts(wasm: &[u8]) -> J {
    let valid = Validator::new_with_features(WasmFeatures::WASM2 | WasmFeatures::MULTI_MEMORY).validate_all(wasm).err().map(|e| e.to_string()).unwrap_or_default();
    if !valid.is_empty() {
        return json!({"invalid": valid});
    }
    let (f, names) = match gather(wasm) {
        Ok(x) => x,
        Err(e) => return json!({"invalid": e.to_string()}),
    };
    let exports: Vec<J> = f
        .exports
        .iter()
        .map(|(n, k, i)| {
            let i = *i as usize;
            let (k, t) = match k {
                ExternalKind::Func => {
                    let t = &f.types[f.functions[i] as usize];
                    ("func", format!("({})->({})", valtypes(t.params()), valtypes(t.results())))
                }
                ExternalKind::Memory => ("memory", f.memories[i].clone()),
                ExternalKind::Table => ("table", f.tables[i].clone()),
                ExternalKind::Global => ("global", f.globals[i].0.clone()),
                _ => ("other", "?".into()),
            };
            json!({"n": n, "k": k, "t": t})
        })
        .collect();
    let mut bodies = serde_json::Map::new();
    for (i, (locals, ops)) in f.bodies.iter().enumerate() {
        if let Some(n) = names.0.get(&(i as u32 + f.imported)) {
            bodies.insert(n.clone(), json!({"l": locals, "o": ops}));
        }
    }
    json!({
        "imports": f.imports, "exports": exports, "memories": f.memories, "tables": f.tables,
        "globals": f.globals.iter().map(|(t, v)| format!("{t} = {v}")).collect::<Vec<_>>(),
        "data": f.data,
        "elements": f.elements.iter().map(|(p, i)| json!({"p": p, "i": i})).collect::<Vec<_>>(),
        "start": f.start.map(|x| names.of(x)).unwrap_or_default(),
        "bodies": bodies,
    })
}

