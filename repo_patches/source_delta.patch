From 9362770092707c41f2dd92aa90c2aa4b78a51fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 01/13] fix: treat guest code as opaque text in the WASP
 grammar

GUEST_BLOCK was a non-atomic rule, so a comment opener inside guest code made
the parser skip over the closing delimiter and merge two definitions.
---
 wasp-compiler/wasp.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasp-compiler/wasp.pest b/wasp-compiler/wasp.pest
index 185c18b..5bd6030 100644
--- a/wasp-compiler/wasp.pest
+++ b/wasp-compiler/wasp.pest
@@ -9,7 +9,7 @@ wasp_input = { SOI ~ wasp ~ EOI }
 wasp       = { "(" ~ "aspect" ~ ("(" ~ advice_definition ~ ")")* ~ ")" }
 
 // Guest language block, currently hardcoded AssemblyScript
-GUEST_BLOCK = { ">>>GUEST>>>" ~ (!"<<<GUEST<<<" ~ ANY)* ~ "<<<GUEST<<<" }
+GUEST_BLOCK = @{ ">>>GUEST>>>" ~ (!"<<<GUEST<<<" ~ ANY)* ~ "<<<GUEST<<<" }
 
 // Advice definitions
 advice_definition = { advice_global | advice_trap }
-- 
2.43.0


From 0b1e77e28a683b124b5d93890cf9323394bc0097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 02/13] fix: report a merge tool that fails without a
 diagnostic

The exit status was ignored: a tool that was killed or failed silently made
merge() return Ok with an empty or partial module.
---
 wasm-merge/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wasm-merge/src/lib.rs b/wasm-merge/src/lib.rs
index 94bbfb9..e207156 100644
--- a/wasm-merge/src/lib.rs
+++ b/wasm-merge/src/lib.rs
@@ -141,6 +141,11 @@ impl MergeOptions<'_> {
             return Err(Error::MergeExecutionFailedReason(std_err_string));
         }
 
+        if !command_output.status.success() {
+            let status = command_output.status.to_string();
+            return Err(Error::MergeExecutionFailedReason(status));
+        }
+
         let mut result = Vec::new();
         output_file
             .read_to_end(&mut result)
-- 
2.43.0


From 548ca27c7744c92a9aaaa56237afb4e11f002ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 03/13] fix: pass module names and paths to the merge tool
 literally

Names and temporary paths were pasted unquoted into a shell command, so a
name that is empty or has blanks or shell characters shifted or changed the
arguments (or ran commands).
---
 wasm-merge/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wasm-merge/src/lib.rs b/wasm-merge/src/lib.rs
index e207156..238b84a 100644
--- a/wasm-merge/src/lib.rs
+++ b/wasm-merge/src/lib.rs
@@ -25,6 +25,11 @@ pub struct InputModule<'a> {
     pub namespace: String,
 }
 
+/// Quotes a word such that the shell passes it on literally.
+fn quote(word: &str) -> String {
+    format!("'{}'", word.replace('\'', r"'\''"))
+}
+
 macro_rules! as_bash_args {
     ($self:ident, $($field:ident),*) => {
         format!(
@@ -106,7 +111,7 @@ impl MergeOptions<'_> {
         let merge_name_combinations = merges
             .iter()
             .map(|(InputModule { namespace, .. }, input_module_path, ..)| {
-                format!("{input_module_path} {namespace}")
+                format!("{} {}", quote(input_module_path), quote(namespace))
             })
             .collect::<Vec<String>>()
             .join(" ");
@@ -122,7 +127,7 @@ impl MergeOptions<'_> {
             ),
             bash_arguments = self.as_bash_arguments(),
             merge_name_combinations = merge_name_combinations,
-            output_file_path = output_file_path,
+            output_file_path = quote(&output_file_path),
         );
 
         // FIXME: move this to separate file, splitting up functionality
-- 
2.43.0


From f658a70c11ae8231a96daa32c78a398a836c4513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 04/13] fix: trap when the address of an instrumented access
 exceeds 32 bits

---
 wastrumentation/src/instrument/memory.rs | 66 +++++++++++++++++-------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/wastrumentation/src/instrument/memory.rs b/wastrumentation/src/instrument/memory.rs
index e485df2..8aacfe1 100644
--- a/wastrumentation/src/instrument/memory.rs
+++ b/wastrumentation/src/instrument/memory.rs
@@ -370,8 +370,46 @@ impl Serialize for LoadOp {
     }
 }
 
+/// Pushes the effective address `ptr + offset`. WebAssembly computes it without
+/// wrapping around: like the original access, this traps (memory access out of
+/// bounds) when the address does not fit in 32 bits.
+fn effective_address(ptr: u32, offset: u32) -> Vec<wasabi_wasm::Instr> {
+    use wasabi_wasm::BinaryOp::{I32Add, I32LtU};
+    use wasabi_wasm::Instr::{Binary, Const, Drop, End, If, Load, Local};
+
+    let always_out_of_bounds = Memarg {
+        offset: u32::MAX,
+        ..Memarg::default(LoadOp::I32Load8U)
+    };
+    vec![
+        // []
+        Local(LocalOp::Get, ptr.into()),
+        // [ptr]
+        Local(LocalOp::Get, offset.into()),
+        // [ptr, offset]
+        Binary(I32Add),
+        // [ptr + offset (wrapped)]
+        Local(LocalOp::Get, ptr.into()),
+        // [ptr + offset (wrapped), ptr]
+        Binary(I32LtU),
+        // [has-wrapped]
+        If(FunctionType::empty()),
+        Const(Val::I32(-1)),
+        Load(LoadOp::I32Load8U, always_out_of_bounds),
+        Drop,
+        End,
+        // []
+        Local(LocalOp::Get, ptr.into()),
+        // [ptr]
+        Local(LocalOp::Get, offset.into()),
+        // [ptr, offset]
+        Binary(I32Add),
+        // [ptr + offset]
+    ]
+}
+
 pub fn inject_memory_loads(module: &mut Module) {
-    use wasabi_wasm::Instr::{Binary, Const, End, Load, Local};
+    use wasabi_wasm::Instr::{Const, End, Load};
     use wasabi_wasm::LoadOp::{F32Load, F64Load, I32Load, I64Load}; // Regular
     use wasabi_wasm::LoadOp::{I32Load16S, I32Load16U, I32Load8S, I32Load8U}; // I32 Specialized
     use wasabi_wasm::LoadOp::{
@@ -414,18 +452,14 @@ pub fn inject_memory_loads(module: &mut Module) {
                 End,
             ]
         } else {
-            vec![
-                // []
-                Local(LocalOp::Get, 0_u32.into()),
-                // [ptr]
-                Local(LocalOp::Get, 1_u32.into()),
-                // [ptr, offset]
-                Binary(wasabi_wasm::BinaryOp::I32Add),
+            let mut body = effective_address(0, 1);
+            body.extend_from_slice(&[
                 // [ptr + offset]
                 Load(load_op, Memarg::default(load_op)),
                 // [value]
                 End,
-            ]
+            ]);
+            body
         };
 
         let memory_function_idx = module.add_function(function_type, vec![], body);
@@ -437,7 +471,7 @@ pub fn inject_memory_loads(module: &mut Module) {
 }
 
 pub fn inject_memory_stores(module: &mut Module) {
-    use wasabi_wasm::Instr::{Binary, End, Local, Store};
+    use wasabi_wasm::Instr::{End, Local, Store};
     use wasabi_wasm::StoreOp::{F32Store, F64Store, I32Store, I64Store}; // Regular
     use wasabi_wasm::StoreOp::{I32Store16, I32Store8}; // I32 Specialized
     use wasabi_wasm::StoreOp::{I64Store16, I64Store32, I64Store8}; // I64 Specialized
@@ -462,20 +496,16 @@ pub fn inject_memory_stores(module: &mut Module) {
         let body = if module.memories.is_empty() {
             vec![End]
         } else {
-            vec![
-                // []
-                Local(LocalOp::Get, 0_u32.into()),
-                // [ptr]
-                Local(LocalOp::Get, 2_u32.into()),
-                // [ptr, offset]
-                Binary(wasabi_wasm::BinaryOp::I32Add),
+            let mut body = effective_address(0, 2);
+            body.extend_from_slice(&[
                 // [ptr + offset]
                 Local(LocalOp::Get, 1_u32.into()),
                 // [ptr + offset, value]
                 Store(store_op, Memarg::default(store_op)),
                 // []
                 End,
-            ]
+            ]);
+            body
         };
 
         let memory_function_idx: Idx<Function> = module.add_function(function_type, vec![], body);
-- 
2.43.0


From d1099a1f21aeca8db439332e9df6bcc30cb4b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 05/13] fix: refuse a function body with unclosed blocks
 instead of panicking

---
 wastrumentation/src/parse_nesting/high_level_body.rs         | 5 +++--
 wastrumentation/src/parse_nesting/typed_high_level_body.rs   | 5 +++--
 .../src/parse_nesting/typed_high_level_body_error.rs         | 2 ++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/wastrumentation/src/parse_nesting/high_level_body.rs b/wastrumentation/src/parse_nesting/high_level_body.rs
index 926a02e..93285a8 100644
--- a/wastrumentation/src/parse_nesting/high_level_body.rs
+++ b/wastrumentation/src/parse_nesting/high_level_body.rs
@@ -201,8 +201,9 @@ impl TryFrom<LowLevelBody> for Body {
             };
         }
 
-        assert!(entered_stack.is_empty());
-        assert!(body_stack.is_empty());
+        if !entered_stack.is_empty() {
+            return Err(LowToHighError::MissingEnd);
+        }
         Ok(Body(current_body))
     }
 }
diff --git a/wastrumentation/src/parse_nesting/typed_high_level_body.rs b/wastrumentation/src/parse_nesting/typed_high_level_body.rs
index 4d7f8ac..d0cbf99 100644
--- a/wastrumentation/src/parse_nesting/typed_high_level_body.rs
+++ b/wastrumentation/src/parse_nesting/typed_high_level_body.rs
@@ -364,8 +364,9 @@ impl TryFrom<(&Module, &Function, &Code, &Idx<Function>)> for Body {
             };
         }
 
-        assert!(entered_stack.is_empty());
-        assert!(body_stack.is_empty());
+        if !entered_stack.is_empty() {
+            return Err(LowToHighError::MissingEnd);
+        }
         Ok(Body(current_body))
     }
 }
diff --git a/wastrumentation/src/parse_nesting/typed_high_level_body_error.rs b/wastrumentation/src/parse_nesting/typed_high_level_body_error.rs
index 819e90e..9940022 100644
--- a/wastrumentation/src/parse_nesting/typed_high_level_body_error.rs
+++ b/wastrumentation/src/parse_nesting/typed_high_level_body_error.rs
@@ -10,6 +10,8 @@ pub enum LowToHighError {
     IfDidNotPrecedeElse,
     #[error("too many `End`s")]
     ExcessiveEnd,
+    #[error("too few `End`s")]
+    MissingEnd,
     #[error("no parent for `End` bytecode")]
     EndWithoutParent,
     #[error("attempt to perform 'trivial' cast from low level to high level")]
-- 
2.43.0


From 106b40f6cdb608bcb772a743d93527f1f037ac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:17 +0000
Subject: [PATCH 06/13] fix: keep progress messages of the static analysis out
 of its results

---
 wastrumentation-static-analysis/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wastrumentation-static-analysis/src/lib.rs b/wastrumentation-static-analysis/src/lib.rs
index 5334756..2defc3e 100644
--- a/wastrumentation-static-analysis/src/lib.rs
+++ b/wastrumentation-static-analysis/src/lib.rs
@@ -99,7 +99,7 @@ pub fn immutable_functions(module: &Module) -> HashSet<u32> {
             break;
         } else {
             iteration += 1;
-            println!("New finding, iteration {iteration}");
+            eprintln!("New finding, iteration {iteration}");
         }
     }
 
-- 
2.43.0


From 2d384e94362c6030ebb20e6824b3d2471e4b9cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:17 +0000
Subject: [PATCH 07/13] fix: fail when the static analysis results cannot be
 written completely

---
 wastrumentation-static-analysis/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wastrumentation-static-analysis/src/main.rs b/wastrumentation-static-analysis/src/main.rs
index 6a500ce..642f90e 100644
--- a/wastrumentation-static-analysis/src/main.rs
+++ b/wastrumentation-static-analysis/src/main.rs
@@ -48,6 +48,6 @@ fn main() -> anyhow::Result<()> {
                     .expect("Cannot convert to usize")
         });
     }
-    let _ = output_path.write(&serde_json::ser::to_vec(&results)?)?;
+    output_path.write_all(&serde_json::ser::to_vec(&results)?)?;
     Ok(())
 }
-- 
2.43.0


From 87ab61fb66dc330450c964deb75690c8bb9757a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 08/13] fix: end the text of a global advice with a newline in
 the generated AssemblyScript analysis

Definitions were written one after the other without a separator, so that a
global whose text ends in a line comment swallowed the next one, and one that
ends without a semicolon ran into it.
---
 supported-languages/assemblyscript/src/generate/analysis/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/supported-languages/assemblyscript/src/generate/analysis/mod.rs b/supported-languages/assemblyscript/src/generate/analysis/mod.rs
index 1ac3210..5669a12 100644
--- a/supported-languages/assemblyscript/src/generate/analysis/mod.rs
+++ b/supported-languages/assemblyscript/src/generate/analysis/mod.rs
@@ -101,7 +101,7 @@ impl Display for ASAdviceDefinition {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let Self(advice_definition) = self;
         match advice_definition {
-            AdviceDefinition::AdviceGlobal(program) => write!(f, "{program}"),
+            AdviceDefinition::AdviceGlobal(program) => writeln!(f, "{program}"),
             AdviceDefinition::AdviceTrap(trap) => ASTrapSignature(trap).fmt(f),
         }
     }
-- 
2.43.0


From c3593e9fa761adb19f90b0110f85e8668970b4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 09/13] fix: count the first run of a block in the
 block-profiling analysis

---
 .../input-analyses/rust/block-profiling/src/lib.rs              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarking-node/input-analyses/rust/block-profiling/src/lib.rs b/benchmarking-node/input-analyses/rust/block-profiling/src/lib.rs
index 9c47b43..a9b02f6 100644
--- a/benchmarking-node/input-analyses/rust/block-profiling/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/block-profiling/src/lib.rs
@@ -15,7 +15,7 @@ fn add_block_enter(location: Location, runtime_target: i32) {
     coverage
         .entry((function_index, instruction_index, runtime_target))
         .and_modify(|c| *c += 1)
-        .or_insert(0);
+        .or_insert(1);
 }
 
 #[no_mangle]
-- 
2.43.0


From 3196d9febfa15d4c31e30a1b23c36ec545653270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 10/13] fix: count the first entry of a loop in the loops
 analysis

---
 benchmarking-node/input-analyses/rust/loops/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarking-node/input-analyses/rust/loops/src/lib.rs b/benchmarking-node/input-analyses/rust/loops/src/lib.rs
index c29ce85..d52149a 100644
--- a/benchmarking-node/input-analyses/rust/loops/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/loops/src/lib.rs
@@ -16,7 +16,7 @@ fn inc_instr(loc: Location) {
         .borrow_mut()
         .entry((loc.function_index(), loc.instruction_index()))
         .and_modify(|c| *c += 1)
-        .or_insert(0);
+        .or_insert(1);
 }
 
 #[no_mangle]
-- 
2.43.0


From 2e193c8e37161975bbb3977fe0c23aa6fb77a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 11/13] fix: count the first access of a global in the globals
 analysis

---
 .../input-analyses/rust/globals/src/lib.rs    | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/benchmarking-node/input-analyses/rust/globals/src/lib.rs b/benchmarking-node/input-analyses/rust/globals/src/lib.rs
index 8476ca6..ee49653 100644
--- a/benchmarking-node/input-analyses/rust/globals/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/globals/src/lib.rs
@@ -11,17 +11,15 @@ struct AccessCount {
 
 fn inc_count(index: GlobalIndex, op: GlobalOp) {
     let globals = unsafe { addr_of!(GLOBALS).as_ref().unwrap() };
-    globals
-        .borrow_mut()
-        .entry(index.value())
-        .and_modify(|mana| match op {
-            GlobalOp::Get => mana.read_count += 1,
-            GlobalOp::Set => mana.write_count += 1,
-        })
-        .or_insert(AccessCount {
-            read_count: 0,
-            write_count: 0,
-        });
+    let mut globals = globals.borrow_mut();
+    let mana = globals.entry(index.value()).or_insert(AccessCount {
+        read_count: 0,
+        write_count: 0,
+    });
+    match op {
+        GlobalOp::Get => mana.read_count += 1,
+        GlobalOp::Set => mana.write_count += 1,
+    }
 }
 
 const READ_WRITE_SERIALIZATION_FAILED: i32 = -1;
-- 
2.43.0


From 06bf4d5ede9ed4cd1a9bc17b60e60c84250c53e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 12/13] fix: count the first instruction of each function in
 the icount analysis, and answer for the instruction asked for

---
 benchmarking-node/input-analyses/rust/icount/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/benchmarking-node/input-analyses/rust/icount/src/lib.rs b/benchmarking-node/input-analyses/rust/icount/src/lib.rs
index 6866f31..7c736aa 100644
--- a/benchmarking-node/input-analyses/rust/icount/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/icount/src/lib.rs
@@ -16,8 +16,7 @@ fn inc_instr(loc: Location, instruction_kind: Instruction) {
     counts
         .borrow_mut()
         .entry(loc.function_index())
-        .and_modify(|map| map[instruction_kind] += 1)
-        .or_insert(EnumMap::new_default());
+        .or_insert(EnumMap::new_default())[instruction_kind] += 1;
 }
 
 #[rustfmt::skip]
@@ -40,8 +39,7 @@ pub fn get_count_for(f_idx: i64, serialized_index: i32) -> i32 {
         .get(&f_idx)
         .map(|map| {
             *map.iter()
-                .step_by(serialized_index as usize)
-                .next()
+                .nth(serialized_index as usize)
                 .unwrap_or(&ERROR_INSTRUCTION_INDEX_DOES_NOT_EXIST)
         })
         .unwrap_or(ERROR_FUNCTION_INDEX_DOES_NOT_EXIST)
-- 
2.43.0


From 52f0c49b3b6e8492124365e447750c7197c318d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 13/13] fix: take the location of a call in the call-stack
 analyses, which did not build without it

---
 .../rust/call-stack-eq-wasabi/src/lib.rs               | 10 +++++-----
 .../rust/call-stack-wastrumentation/src/lib.rs         | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/benchmarking-node/input-analyses/rust/call-stack-eq-wasabi/src/lib.rs b/benchmarking-node/input-analyses/rust/call-stack-eq-wasabi/src/lib.rs
index 86cfbcb..eb08488 100644
--- a/benchmarking-node/input-analyses/rust/call-stack-eq-wasabi/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/call-stack-eq-wasabi/src/lib.rs
@@ -1,7 +1,7 @@
 #![no_std]
 
 extern crate wastrumentation_rs_stdlib;
-use wastrumentation_rs_stdlib::{advice, FunctionIndex, FunctionTable, FunctionTableIndex};
+use wastrumentation_rs_stdlib::{advice, FunctionIndex, FunctionTable, FunctionTableIndex, Location};
 
 #[no_mangle]
 pub extern "C" fn get_number_of_calls() -> i32 {
@@ -24,7 +24,7 @@ static mut CALL_STACK: i32 = 0;
 
 advice! {
     call pre
-    (f: FunctionIndex) {
+    (f: FunctionIndex, _location: Location) {
         let _ = f;
         unsafe {
             /* [1] */
@@ -43,7 +43,7 @@ advice! {
 
 advice! {
     call post
-    (f: FunctionIndex) {
+    (f: FunctionIndex, _location: Location) {
         let _ = f;
         unsafe {
             CALL_STACK -= 1;
@@ -53,7 +53,7 @@ advice! {
 
 advice! {
     call_indirect pre
-    (table_f_idx: FunctionTableIndex, table: FunctionTable) {
+    (table_f_idx: FunctionTableIndex, table: FunctionTable, _location: Location) {
         let _ = table;
         unsafe {
             /* [1] */
@@ -73,7 +73,7 @@ advice! {
 
 advice! {
     call_indirect post
-    (table: FunctionTable) {
+    (table: FunctionTable, _location: Location) {
         let _ = table;
         unsafe {
             CALL_STACK -= 1;
diff --git a/benchmarking-node/input-analyses/rust/call-stack-wastrumentation/src/lib.rs b/benchmarking-node/input-analyses/rust/call-stack-wastrumentation/src/lib.rs
index 9e6b38f..b93c9b1 100644
--- a/benchmarking-node/input-analyses/rust/call-stack-wastrumentation/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/call-stack-wastrumentation/src/lib.rs
@@ -2,7 +2,7 @@
 
 extern crate wastrumentation_rs_stdlib;
 use wastrumentation_rs_stdlib::{
-    advice, FunctionIndex, FunctionTable, FunctionTableIndex, MutDynArgs, MutDynResults,
+    advice, FunctionIndex, FunctionTable, FunctionTableIndex, Location, MutDynArgs, MutDynResults,
     WasmFunction,
 };
 
@@ -44,7 +44,7 @@ static mut CALL_STACK: i32 = 0;
 
 advice! {
     call pre
-    (f: FunctionIndex) {
+    (f: FunctionIndex, _location: Location) {
         let _ = f;
         unsafe {
             /* [1] */
@@ -63,7 +63,7 @@ advice! {
 
 advice! {
     call post
-    (f: FunctionIndex) {
+    (f: FunctionIndex, _location: Location) {
         let _ = f;
         unsafe {
             CALL_STACK -= 1;
@@ -73,7 +73,7 @@ advice! {
 
 advice! {
     call_indirect pre
-    (table_f_idx: FunctionTableIndex, table: FunctionTable) {
+    (table_f_idx: FunctionTableIndex, table: FunctionTable, _location: Location) {
         let _ = table;
         unsafe {
             /* [1] */
@@ -93,7 +93,7 @@ advice! {
 
 advice! {
     call_indirect post
-    (table: FunctionTable) {
+    (table: FunctionTable, _location: Location) {
         let _ = table;
         unsafe {
             CALL_STACK -= 1;
-- 
2.43.0

