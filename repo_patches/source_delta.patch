From bbb1f76291a68708861bd006e0e0ff22c7f82480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 01/90] fix: treat a (void) parameter list as no parameters

---
 src/middle_end/get_ast_type_info.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 837eace..ece836d 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -271,6 +271,10 @@ fn add_type_info_from_declarator(
                         None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                         Some(x) => x,
                     };
+                // a single unnamed void parameter means the function has no parameters
+                if param_type == IrType::Void && param_name.is_none() {
+                    continue;
+                }
                 param_types.push(param_type.to_owned());
                 if let Some(name) = param_name {
                     param_bindings.push((name, param_type));
-- 
2.43.0


From c75fd5cd370acdf4044abd9944df6be79d48d5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 02/90] fix: complete the arithmetic conversions and make char
 and short promotions value-preserving

---
 .../dataflow_analysis/instruction_def_ref.rs  |   6 +
 .../stack_allocation/get_vars_from_block.rs   |   3 +
 src/back_end/target_code_generation.rs        |  57 +++++
 src/middle_end/instructions.rs                |   6 +
 src/middle_end/type_conversions.rs            | 197 +++++++++++-------
 5 files changed, 195 insertions(+), 74 deletions(-)

diff --git a/src/back_end/dataflow_analysis/instruction_def_ref.rs b/src/back_end/dataflow_analysis/instruction_def_ref.rs
index 4205ad9..447cbb0 100644
--- a/src/back_end/dataflow_analysis/instruction_def_ref.rs
+++ b/src/back_end/dataflow_analysis/instruction_def_ref.rs
@@ -57,6 +57,9 @@ pub fn def_set(instr: &Instruction) -> HashSet<VarId> {
         | Instruction::I64toF64(_, dest, _)
         | Instruction::F32toF64(_, dest, _)
         | Instruction::F64toI32(_, dest, _)
+        | Instruction::F64toI64(_, dest, _)
+        | Instruction::F64toU64(_, dest, _)
+        | Instruction::F64toF32(_, dest, _)
         | Instruction::I32toI8(_, dest, _)
         | Instruction::U32toI8(_, dest, _)
         | Instruction::I64toI8(_, dest, _)
@@ -114,6 +117,9 @@ pub fn ref_set(instr: &Instruction) -> HashSet<VarId> {
         | Instruction::I64toF64(_, _, src)
         | Instruction::F32toF64(_, _, src)
         | Instruction::F64toI32(_, _, src)
+        | Instruction::F64toI64(_, _, src)
+        | Instruction::F64toU64(_, _, src)
+        | Instruction::F64toF32(_, _, src)
         | Instruction::I32toI8(_, _, src)
         | Instruction::U32toI8(_, _, src)
         | Instruction::I64toI8(_, _, src)
diff --git a/src/back_end/stack_allocation/get_vars_from_block.rs b/src/back_end/stack_allocation/get_vars_from_block.rs
index 06cba07..668616a 100644
--- a/src/back_end/stack_allocation/get_vars_from_block.rs
+++ b/src/back_end/stack_allocation/get_vars_from_block.rs
@@ -114,6 +114,9 @@ fn get_vars_from_instrs(
             | Instruction::I64toF64(_, dest, _)
             | Instruction::F32toF64(_, dest, _)
             | Instruction::F64toI32(_, dest, _)
+            | Instruction::F64toI64(_, dest, _)
+            | Instruction::F64toU64(_, dest, _)
+            | Instruction::F64toF32(_, dest, _)
             | Instruction::I32toI8(_, dest, _)
             | Instruction::U32toI8(_, dest, _)
             | Instruction::I64toI8(_, dest, _)
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 887ba25..57dfddf 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -2177,6 +2177,63 @@ fn convert_ir_instr_to_wasm(
                 prog_metadata,
             );
         }
+        Instruction::F64toI64(_, dest, src) => {
+            let mut temp_instrs = Vec::new();
+            load_src(
+                src,
+                IrType::F64,
+                &mut temp_instrs,
+                function_context,
+                prog_metadata,
+            );
+            // convert f64 to i64
+            temp_instrs.push(WasmInstruction::I64TruncF64S);
+            store_var(
+                dest,
+                temp_instrs,
+                wasm_instrs,
+                function_context,
+                prog_metadata,
+            );
+        }
+        Instruction::F64toU64(_, dest, src) => {
+            let mut temp_instrs = Vec::new();
+            load_src(
+                src,
+                IrType::F64,
+                &mut temp_instrs,
+                function_context,
+                prog_metadata,
+            );
+            // convert f64 to u64
+            temp_instrs.push(WasmInstruction::I64TruncF64U);
+            store_var(
+                dest,
+                temp_instrs,
+                wasm_instrs,
+                function_context,
+                prog_metadata,
+            );
+        }
+        Instruction::F64toF32(_, dest, src) => {
+            let mut temp_instrs = Vec::new();
+            load_src(
+                src,
+                IrType::F64,
+                &mut temp_instrs,
+                function_context,
+                prog_metadata,
+            );
+            // convert f64 to f32
+            temp_instrs.push(WasmInstruction::F32DemoteF64);
+            store_var(
+                dest,
+                temp_instrs,
+                wasm_instrs,
+                function_context,
+                prog_metadata,
+            );
+        }
         Instruction::Nop(..) => {
             // do nothing
         }
diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index dc5bfdd..57ed1d2 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -226,6 +226,9 @@ pub enum Instruction {
 
     // double to int
     F64toI32(InstructionId, Dest, Src),
+    F64toI64(InstructionId, Dest, Src),
+    F64toU64(InstructionId, Dest, Src),
+    F64toF32(InstructionId, Dest, Src),
 
     // integer truncation
     I32toI8(InstructionId, Dest, Src),
@@ -324,6 +327,9 @@ impl Instruction {
             | Instruction::I64toF64(id, _, _)
             | Instruction::F32toF64(id, _, _)
             | Instruction::F64toI32(id, _, _)
+            | Instruction::F64toI64(id, _, _)
+            | Instruction::F64toU64(id, _, _)
+            | Instruction::F64toF32(id, _, _)
             | Instruction::I32toI8(id, _, _)
             | Instruction::U32toI8(id, _, _)
             | Instruction::I64toI8(id, _, _)
diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 5f140c9..6f22de9 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -320,23 +320,13 @@ pub fn get_type_conversion_instrs(
         // char promotions
         (IrType::I8, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
-            let intermediate_type;
-            if dest_type.is_signed_integral() {
-                instrs.push(Instruction::I8toI16(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::I16;
-            } else {
-                // unsigned
-                instrs.push(Instruction::I8toU16(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::U16;
-            }
+            // the signed intermediate type can represent all values of src
+            let intermediate_type = IrType::I16;
+            instrs.push(Instruction::I8toI16(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
             prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?;
             let (mut convert_instrs, dest) = get_type_conversion_instrs(
                 Src::Var(intermediate_var),
@@ -355,23 +345,13 @@ pub fn get_type_conversion_instrs(
         // }
         (IrType::U8, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
-            let intermediate_type;
-            if dest_type.is_signed_integral() {
-                instrs.push(Instruction::U8toI16(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::I16;
-            } else {
-                // unsigned
-                instrs.push(Instruction::U8toU16(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::U16;
-            }
+            // the signed intermediate type can represent all values of src
+            let intermediate_type = IrType::I16;
+            instrs.push(Instruction::U8toI16(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
             prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?;
             let (mut convert_instrs, dest) = get_type_conversion_instrs(
                 Src::Var(intermediate_var),
@@ -384,23 +364,13 @@ pub fn get_type_conversion_instrs(
         }
         (IrType::I16, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
-            let intermediate_type;
-            if dest_type.is_signed_integral() {
-                instrs.push(Instruction::I16toI32(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::I32;
-            } else {
-                // unsigned
-                instrs.push(Instruction::I16toU32(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::U32;
-            }
+            // the signed intermediate type can represent all values of src
+            let intermediate_type = IrType::I32;
+            instrs.push(Instruction::I16toI32(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
             prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?;
             let (mut convert_instrs, dest) = get_type_conversion_instrs(
                 Src::Var(intermediate_var),
@@ -413,23 +383,13 @@ pub fn get_type_conversion_instrs(
         }
         (IrType::U16, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
-            let intermediate_type;
-            if dest_type.is_signed_integral() {
-                instrs.push(Instruction::U16toI32(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::I32;
-            } else {
-                // unsigned
-                instrs.push(Instruction::U16toU32(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::U32;
-            }
+            // the signed intermediate type can represent all values of src
+            let intermediate_type = IrType::I32;
+            instrs.push(Instruction::U16toI32(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
             prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?;
             let (mut convert_instrs, dest) = get_type_conversion_instrs(
                 Src::Var(intermediate_var),
@@ -510,10 +470,10 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
-        // cast to void *
-        (IrType::I32, IrType::PointerTo(t)) if *t == IrType::Void => {
+        // integer to pointer
+        (IrType::I32, IrType::PointerTo(t)) => {
             let dest = prog.new_var(src.get_value_type());
-            prog.add_var_type(dest.to_owned(), IrType::PointerTo(Box::new(IrType::Void)))?;
+            prog.add_var_type(dest.to_owned(), IrType::PointerTo(t))?;
             instrs.push(Instruction::I32toPtr(
                 prog.new_instr_id(),
                 dest.to_owned(),
@@ -582,10 +542,10 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
-        // cast to void *
-        (IrType::U32, IrType::PointerTo(t)) if *t == IrType::Void => {
+        // integer to pointer
+        (IrType::U32, IrType::PointerTo(t)) => {
             let dest = prog.new_var(src.get_value_type());
-            prog.add_var_type(dest.to_owned(), IrType::PointerTo(Box::new(IrType::Void)))?;
+            prog.add_var_type(dest.to_owned(), IrType::PointerTo(t))?;
             instrs.push(Instruction::U32toPtr(
                 prog.new_instr_id(),
                 dest.to_owned(),
@@ -760,6 +720,80 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
+        // both types are i32s on the wasm stack, so storing to dest truncates if needed
+        (IrType::I32 | IrType::U32, dest_type @ (IrType::I16 | IrType::U16))
+        | (IrType::U32, dest_type @ IrType::I32)
+        | (IrType::U64, dest_type @ IrType::I64) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), dest_type)?;
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        (src_type @ (IrType::I64 | IrType::U64), IrType::U32) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::U32)?;
+            instrs.push(match src_type {
+                IrType::I64 => {
+                    Instruction::I64toI32(prog.new_instr_id(), dest.to_owned(), src)
+                }
+                _ => Instruction::U64toI32(prog.new_instr_id(), dest.to_owned(), src),
+            });
+            Ok((instrs, Src::Var(dest)))
+        }
+        (
+            src_type @ (IrType::I64 | IrType::U64),
+            dest_type @ (IrType::I16 | IrType::U16 | IrType::PointerTo(_)),
+        ) => convert_via_intermediate_type(src, src_type, IrType::I32, dest_type, prog),
+
+        // float conversions
+        (IrType::F64, IrType::I64) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::I64)?;
+            instrs.push(Instruction::F64toI64(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        (IrType::F64, IrType::U64) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::U64)?;
+            instrs.push(Instruction::F64toU64(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        (IrType::F64, IrType::F32) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::F32)?;
+            instrs.push(Instruction::F64toF32(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        (IrType::F64, IrType::U32) => {
+            convert_via_intermediate_type(src, IrType::F64, IrType::I64, IrType::U32, prog)
+        }
+        (IrType::F64, dest_type) if dest_type.is_integral_type() => {
+            convert_via_intermediate_type(src, IrType::F64, IrType::I32, dest_type, prog)
+        }
+        (IrType::F32, dest_type) if dest_type.is_integral_type() => {
+            convert_via_intermediate_type(src, IrType::F32, IrType::F64, dest_type, prog)
+        }
+
+        // any integer can be obtained from a pointer
+        (src_type @ IrType::PointerTo(_), dest_type) if dest_type.is_integral_type() => {
+            convert_via_intermediate_type(src, src_type, IrType::I32, dest_type, prog)
+        }
         (s, d) => Err(MiddleEndError::TypeConversionError(
             "Cannot convert type",
             s,
@@ -767,3 +801,18 @@ pub fn get_type_conversion_instrs(
         )),
     }
 }
+
+fn convert_via_intermediate_type(
+    src: Src,
+    src_type: IrType,
+    intermediate_type: IrType,
+    dest_type: IrType,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let (mut instrs, intermediate_src) =
+        get_type_conversion_instrs(src, src_type, intermediate_type.to_owned(), prog)?;
+    let (mut dest_instrs, dest) =
+        get_type_conversion_instrs(intermediate_src, intermediate_type, dest_type, prog)?;
+    instrs.append(&mut dest_instrs);
+    Ok((instrs, dest))
+}
-- 
2.43.0


From 39d074d26f6cd558d0f5ddcd6ee6012b938c6785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 03/90] fix: give integer constants the type int, long or
 unsigned long

---
 src/middle_end/instructions.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index 57ed1d2..abf7cdf 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -22,15 +22,12 @@ impl Constant {
                         return t;
                     }
                 }
+                // an integer constant has the first of int, long, and unsigned
+                // long that can represent its value
                 match i {
-                    0..=255 => IrType::U8,
-                    -128..=127 => IrType::I8,
-                    0..=65_535 => IrType::U16,
-                    -32_768..=32_767 => IrType::I16,
-                    0..=4_294_967_296 => IrType::U32,
                     -2_147_483_648..=2_147_483_647 => IrType::I32,
-                    0..=18_446_744_073_709_551_615 => IrType::U64,
-                    _ => IrType::I64,
+                    -9_223_372_036_854_775_808..=9_223_372_036_854_775_807 => IrType::I64,
+                    _ => IrType::U64,
                 }
             }
             Constant::Float(_) => IrType::F64,
@@ -39,12 +36,7 @@ impl Constant {
 
     pub fn get_type_minimum_i32(&self) -> IrType {
         match self {
-            Constant::Int(i) => match i {
-                0..=4_294_967_296 => IrType::U32,
-                -2_147_483_648..=2_147_483_647 => IrType::I32,
-                0..=18_446_744_073_709_551_615 => IrType::U64,
-                _ => IrType::I64,
-            },
+            Constant::Int(_) => self.get_type(None),
             Constant::Float(_) => IrType::F64,
         }
     }
-- 
2.43.0


From 93bab46a37dd90e2d9b9dd4a1fc6a785ce978d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 04/90] fix: convert returned values to the return type of the
 function

---
 src/middle_end/ast_to_ir.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 6b59e47..f567b8d 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -683,6 +683,7 @@ fn convert_statement_to_ir(
             context.add_function_declaration(name.to_owned(), fun_id)?;
             // function body instructions
             let instrs = convert_statement_to_ir(*body, prog, context)?;
+            let instrs = convert_return_values_to_return_type(instrs, &type_info, prog)?;
             // update function in program with full body
             let fun = Function::new(instrs, type_info, param_var_mappings);
             prog.new_fun_body(name, fun)?;
@@ -699,6 +700,34 @@ fn convert_statement_to_ir(
     Ok(instrs)
 }
 
+/// a returned value is converted, as if by assignment, to the return type of the function
+fn convert_return_values_to_return_type(
+    instrs: Vec<Instruction>,
+    fun_type: &IrType,
+    prog: &mut Program,
+) -> Result<Vec<Instruction>, MiddleEndError> {
+    let return_type = match fun_type {
+        IrType::Function(return_type, _, _) if **return_type != IrType::Void => {
+            (**return_type).to_owned()
+        }
+        _ => return Ok(instrs),
+    };
+    let mut converted_instrs = Vec::new();
+    for instr in instrs {
+        match instr {
+            Instruction::Ret(instr_id, Some(src)) => {
+                let src_type = src.get_type(&prog.program_metadata)?;
+                let (mut convert_instrs, converted_src) =
+                    convert_type_for_assignment(src, src_type, return_type.to_owned(), prog)?;
+                converted_instrs.append(&mut convert_instrs);
+                converted_instrs.push(Instruction::Ret(instr_id, Some(converted_src)));
+            }
+            instr => converted_instrs.push(instr),
+        }
+    }
+    Ok(converted_instrs)
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
-- 
2.43.0


From 3583db7e344bb8b204cc017c2ece81c2eebd33c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 05/90] fix: convert function arguments to the parameter types

---
 runtime/stdlib/stdio.mjs       |  8 +++++---
 src/middle_end/ast_to_ir.rs    | 17 +++++++++++++++--
 src/middle_end/instructions.rs | 10 ++++++++++
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index 19b5029..c8621b0 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -74,7 +74,8 @@ export function printf(wasm_memory) {
                             if (c != "i" && c != "d" && c != "u") {
                                 console.log("Error: invalid format specifier to printf");
                             }
-                            value = next_vararg_int(I16_SIZE);
+                            // shorts are promoted to int when passed as varargs
+                            value = BigInt.asIntN(I16_SIZE * 8, next_vararg_int(I32_SIZE));
                             if (c === "u") {
                                 value = signed_to_unsigned_i16(value);
                             }
@@ -96,8 +97,9 @@ export function printf(wasm_memory) {
                             break;
                         case "c":
                             // char
-                            value = next_vararg_int(I8_SIZE);
-                            value = String.fromCharCode(value);
+                            // chars are promoted to int when passed as varargs
+                            value = next_vararg_int(I32_SIZE);
+                            value = String.fromCharCode(Number(BigInt.asUintN(I8_SIZE * 8, value)));
                             break;
                         case "s":
                             // string
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index f567b8d..d81b440 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -875,12 +875,25 @@ pub fn convert_expression_to_ir(
             // must be a function name to be able to be called
             let fun_id = fun_var.require_function_id()?;
             let dest_type = fun_var.get_function_return_type(prog)?;
+            let param_types = fun_var.get_function_param_types(prog)?;
 
             let mut param_srcs: Vec<Src> = Vec::new();
-            for param in params {
+            for (param_i, param) in params.into_iter().enumerate() {
                 let (mut param_instrs, param_var) = convert_expression_to_ir(param, prog, context)?;
-                // todo function parameter passing type conversions
                 instrs.append(&mut param_instrs);
+                // convert to the declared parameter type, or apply the default argument
+                // promotions if there isn't one
+                let param_var_type = param_var.get_type(&prog.program_metadata)?;
+                let dest_param_type = match param_types.get(param_i) {
+                    Some(param_type) => array_to_pointer_type(param_type.to_owned()),
+                    None => match param_var_type.unary_convert() {
+                        IrType::F32 => IrType::F64,
+                        promoted_type => promoted_type,
+                    },
+                };
+                let (mut convert_instrs, param_var) =
+                    convert_type_for_assignment(param_var, param_var_type, dest_param_type, prog)?;
+                instrs.append(&mut convert_instrs);
                 param_srcs.push(param_var);
             }
             let dest = prog.new_var(ValueType::RValue);
diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index abf7cdf..bbd209c 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -101,6 +101,16 @@ impl Src {
         }
     }
 
+    pub fn get_function_param_types(&self, prog: &Program) -> Result<Vec<IrType>, MiddleEndError> {
+        match self {
+            Src::Fun(fun_id) => match prog.get_fun_type(fun_id)? {
+                IrType::Function(_, param_types, _) => Ok(param_types),
+                _ => Err(MiddleEndError::UnwrapNonFunctionType),
+            },
+            _ => Err(MiddleEndError::UnwrapNonFunctionType),
+        }
+    }
+
     pub fn unwrap_var(&self) -> Result<VarId, MiddleEndError> {
         match self {
             Src::Var(var_id) | Src::StoreAddressVar(var_id) => Ok(var_id.to_owned()),
-- 
2.43.0


From 00a5b97d1dc0fc5518481364d4e69592192b5c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 06/90] fix: make printf write raw bytes and return the number
 of them

---
 runtime/stdlib/stdio.mjs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index c8621b0..ff8511b 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -120,9 +120,10 @@ export function printf(wasm_memory) {
             c = next_char();
         }
 
-        process.stdout.write(str); // only works in node.js, use console.log otherwise, but that prints newline
+        // each char of str is a single byte of output
+        process.stdout.write(Buffer.from(str, "latin1")); // only works in node.js, use console.log otherwise, but that prints newline
 
-        // write return value
-        store_int(fp + PTR_SIZE, I32_SIZE, 0n, memory);
+        // write return value: the number of bytes printed
+        store_int(fp + PTR_SIZE, I32_SIZE, BigInt(str.length), memory);
     };
 }
-- 
2.43.0


From f9abec113d9dddd8c9299ab98b971c9e61d3761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 07/90] fix: format doubles in printf like %f

---
 runtime/stdlib/stdio.mjs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index ff8511b..2d8c5c0 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -16,6 +16,30 @@ import {
 } from "../memory_operations.mjs";
 import {signed_to_unsigned_i16, signed_to_unsigned_i32, signed_to_unsigned_i64} from "../number_operations.mjs";
 
+// format a double in the same way as "%f": the exact value, rounded to 6 decimal places
+function format_double(value) {
+    const sign = value < 0 || Object.is(value, -0) ? "-" : "";
+    if (Number.isNaN(value)) return "nan";
+    if (!Number.isFinite(value)) return `${sign}inf`;
+    // write the absolute value as the exact fraction numerator / 2^shift
+    let numerator = Math.abs(value);
+    let shift = 0n;
+    while (!Number.isInteger(numerator)) {
+        numerator *= 2;
+        shift += 1n;
+    }
+    const scaled = BigInt(numerator) * 1_000_000n;
+    let rounded = scaled >> shift;
+    const remainder = scaled - (rounded << shift);
+    const half = (1n << shift) / 2n;
+    // round to nearest, ties to even
+    if (shift > 0n && (remainder > half || (remainder === half && rounded % 2n === 1n))) {
+        rounded += 1n;
+    }
+    const digits = rounded.toString().padStart(7, "0");
+    return `${sign}${digits.slice(0, -6)}.${digits.slice(-6)}`;
+}
+
 // print a null-terminated string from memory to console
 // int printf(const char *format, ...);
 export function printf(wasm_memory) {
@@ -93,7 +117,7 @@ export function printf(wasm_memory) {
                             break;
                         case "f":
                             // double
-                            value = next_vararg_double();
+                            value = format_double(next_vararg_double());
                             break;
                         case "c":
                             // char
-- 
2.43.0


From c04555abccabd5bf8b85d3223836f770115db89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 08/90] fix: encode f32.const with 4 bytes

---
 src/back_end/wasm_instructions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/back_end/wasm_instructions.rs b/src/back_end/wasm_instructions.rs
index 91f1d49..d7282b4 100644
--- a/src/back_end/wasm_instructions.rs
+++ b/src/back_end/wasm_instructions.rs
@@ -745,7 +745,7 @@ impl ToBytes for WasmInstruction {
             }
             WasmInstruction::F32Const { z } => {
                 let mut bytes = vec![0x43];
-                bytes.append(&mut encode_float(*z as f64));
+                bytes.append(&mut z.to_le_bytes().to_vec());
                 bytes
             }
             WasmInstruction::F64Const { z } => {
-- 
2.43.0


From 7b35984dedc11be35762bc3609647bb7e06f21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 09/90] fix: make ++ and -- work on char, short, float and
 pointer operands

---
 src/back_end/memory_operations.rs |   8 +-
 src/middle_end/ast_to_ir.rs       | 408 +++++++-----------------------
 2 files changed, 96 insertions(+), 320 deletions(-)

diff --git a/src/back_end/memory_operations.rs b/src/back_end/memory_operations.rs
index 06bbbac..2761865 100644
--- a/src/back_end/memory_operations.rs
+++ b/src/back_end/memory_operations.rs
@@ -182,15 +182,11 @@ pub fn load_constant(
         },
         IrType::F32 => match constant {
             Constant::Float(z) => wasm_instrs.push(WasmInstruction::F32Const { z: z as f32 }),
-            Constant::Int(_) => {
-                unreachable!()
-            }
+            Constant::Int(n) => wasm_instrs.push(WasmInstruction::F32Const { z: n as f32 }),
         },
         IrType::F64 => match constant {
             Constant::Float(z) => wasm_instrs.push(WasmInstruction::F64Const { z }),
-            Constant::Int(_) => {
-                unreachable!()
-            }
+            Constant::Int(n) => wasm_instrs.push(WasmInstruction::F64Const { z: n as f64 }),
         },
         t => {
             debug!("{}", t);
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index d81b440..a6fadd8 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -728,6 +728,96 @@ fn convert_return_values_to_return_type(
     Ok(converted_instrs)
 }
 
+/// the operand keeps its own type, and a pointer is stepped by the size of the object it
+/// points to. The result is the value of the operand after (prefix) or before (postfix) the step.
+fn convert_increment_or_decrement_to_ir(
+    expr: Expression,
+    is_increment: bool,
+    is_prefix: bool,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    context.directly_on_lhs_of_assignment = true;
+    let (mut instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
+    context.directly_on_lhs_of_assignment = false;
+    if !expr_var.get_value_type().is_lvalue() {
+        return Err(MiddleEndError::AttemptToModifyNonLValue);
+    }
+    let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+    let (var, value_type, is_store_to_address) = match expr_var {
+        Src::Var(var) => (var, expr_var_type, false),
+        Src::StoreAddressVar(var) => (var, expr_var_type.dereference_pointer_type()?, true),
+        _ => return Err(MiddleEndError::InvalidLValue),
+    };
+    // check type is valid to be incremented
+    if !value_type.is_scalar_type() {
+        return Err(MiddleEndError::InvalidOperation(
+            "Incrementing or decrementing a non-scalar type",
+        ));
+    }
+    let step = if value_type.is_pointer_type() {
+        match value_type.get_pointer_object_byte_size(&prog.program_metadata)? {
+            TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
+            TypeSize::Runtime(size_expr) => {
+                let (mut size_expr_instrs, size_var) =
+                    convert_expression_to_ir(size_expr, prog, context)?;
+                instrs.append(&mut size_expr_instrs);
+                size_var
+            }
+        }
+    } else {
+        Src::Constant(Constant::Int(1))
+    };
+
+    // the value before the step
+    let old_value = prog.new_var(ValueType::RValue);
+    prog.add_var_type(old_value.to_owned(), value_type.to_owned())?;
+    instrs.push(if is_store_to_address {
+        Instruction::LoadFromAddress(
+            prog.new_instr_id(),
+            old_value.to_owned(),
+            Src::Var(var.to_owned()),
+        )
+    } else {
+        Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            old_value.to_owned(),
+            Src::Var(var.to_owned()),
+        )
+    });
+
+    // the value after the step
+    let new_value = prog.new_var(ValueType::RValue);
+    prog.add_var_type(new_value.to_owned(), value_type)?;
+    instrs.push(if is_increment {
+        Instruction::Add(
+            prog.new_instr_id(),
+            new_value.to_owned(),
+            Src::Var(old_value.to_owned()),
+            step,
+        )
+    } else {
+        Instruction::Sub(
+            prog.new_instr_id(),
+            new_value.to_owned(),
+            Src::Var(old_value.to_owned()),
+            step,
+        )
+    });
+
+    // store the new value back
+    instrs.push(if is_store_to_address {
+        Instruction::StoreToAddress(prog.new_instr_id(), var, Src::Var(new_value.to_owned()))
+    } else {
+        Instruction::SimpleAssignment(prog.new_instr_id(), var, Src::Var(new_value.to_owned()))
+    });
+
+    Ok((
+        instrs,
+        Src::Var(if is_prefix { new_value } else { old_value }),
+    ))
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
@@ -1048,326 +1138,16 @@ pub fn convert_expression_to_ir(
             }
         }
         Expression::PostfixIncrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            let dest = prog.new_var(ValueType::RValue);
-            // propagate the type of dest: same as src
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            // check type is valid to be incremented
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Incrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    // the returned value is the variable before incrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to increment
-                    let src_to_increment = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_increment.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_increment.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // the returned value is the variable before incrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(src_to_increment.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_increment),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_or_decrement_to_ir(*expr, true, false, prog, context)
         }
         Expression::PostfixDecrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            let dest = prog.new_var(ValueType::RValue);
-            // propagate the type of dest: same as src
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            // check type is valid to be incremented
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Decrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    // the returned value is the variable before decrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to decrement
-                    let src_to_decrement = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_decrement.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_decrement.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // the returned value is the variable before decrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(src_to_decrement.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_decrement),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_or_decrement_to_ir(*expr, false, false, prog, context)
         }
         Expression::PrefixIncrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            // make sure the result is an rvalue
-            let dest = prog.new_var(ValueType::RValue);
-            // expr_var is the variable returned, after incrementing
-            // check type is valid to be incremented
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Incrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var.to_owned()),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to increment
-                    let src_to_increment = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_increment.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_increment.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_increment),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    debug!(
-                        "VAR TYPE: {}, RESULT TYPE: {}",
-                        prog.get_var_type(&var)?,
-                        prog.get_var_type(&result)?
-                    );
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result.to_owned()),
-                    ));
-
-                    // store result to dest
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_or_decrement_to_ir(*expr, true, true, prog, context)
         }
         Expression::PrefixDecrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            // make sure the result is an rvalue
-            let dest = prog.new_var(ValueType::RValue);
-            // expr_var is the variable returned, after decrementing
-            // check type is valid to be incremented
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Incrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var.to_owned()),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to increment
-                    let src_to_decrement = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_decrement.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_decrement.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_decrement),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    debug!(
-                        "VAR TYPE: {}, RESULT TYPE: {}",
-                        prog.get_var_type(&var)?,
-                        prog.get_var_type(&result)?
-                    );
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result.to_owned()),
-                    ));
-
-                    // store result to dest
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_or_decrement_to_ir(*expr, false, true, prog, context)
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-- 
2.43.0


From 46ddbd1b4aed4bee9cab65ca3892ebefef228e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 10/90] fix: a variable clashes with everything live where it
 is written

---
 src/back_end/dataflow_analysis/clash_graph.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/back_end/dataflow_analysis/clash_graph.rs b/src/back_end/dataflow_analysis/clash_graph.rs
index 431d579..3861286 100644
--- a/src/back_end/dataflow_analysis/clash_graph.rs
+++ b/src/back_end/dataflow_analysis/clash_graph.rs
@@ -3,6 +3,7 @@ use std::fmt;
 use std::fmt::Formatter;
 
 use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgraph};
+use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
 use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::Instruction;
@@ -108,6 +109,21 @@ pub fn generate_clash_graph(block: &Block) -> ClashGraph {
 
     let mut clash_graph = ClashGraph::new();
 
+    // a var clashes with everything that is live when it gets written to, even if its new
+    // value is never used
+    for (instr_id, instr) in &flowgraph.instrs {
+        for def_var in def_set(instr) {
+            clash_graph.add_var(def_var.to_owned());
+            for successor in flowgraph.successors.get(instr_id).unwrap() {
+                for live_var in live_vars.get(successor).unwrap() {
+                    if *live_var != def_var {
+                        clash_graph.add_clash(def_var.to_owned(), live_var.to_owned());
+                    }
+                }
+            }
+        }
+    }
+
     for (_instr, simultaneously_live_vars) in live_vars {
         if simultaneously_live_vars.len() < 2 {
             // no clashes
-- 
2.43.0


From 3ea3ac990dec78338a0614aac37c8f564639fd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 11/90] fix: keep global variables clear of the program
 arguments

---
 src/back_end/initialise_memory.rs             | 27 +++++++++++++++----
 .../stack_allocation/allocate_vars.rs         | 14 +++-------
 .../stack_allocation/naive_allocation.rs      | 16 ++++-------
 src/back_end/target_code_generation.rs        | 14 +++-------
 4 files changed, 33 insertions(+), 38 deletions(-)

diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index 5c209bb..0416c5e 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -1,6 +1,11 @@
+use std::collections::HashMap;
+
 use log::info;
 
 use crate::back_end::memory_constants::{PTR_SIZE, STACK_PTR_ADDR};
+use crate::back_end::stack_allocation::allocate_vars::{
+    allocate_global_vars, VariableAllocationMap,
+};
 use crate::back_end::target_code_generation_context::ModuleContext;
 use crate::back_end::wasm_instructions::{WasmExpression, WasmInstruction};
 use crate::back_end::wasm_module::data_section::DataSegment;
@@ -11,15 +16,17 @@ use crate::middle_end::ir::ProgramMetadata;
 use crate::program_config::program_constants::{
     MEMORY_IMPORT_FIELD_NAME, MEMORY_IMPORT_MODULE_NAME,
 };
+use crate::relooper::blocks::Block;
 
 pub fn initialise_memory(
     wasm_module: &mut WasmModule,
     module_context: &mut ModuleContext,
     prog_metadata: &ProgramMetadata,
-) -> u32 {
-    // ----------------------------------------------------------
-    // | FP | temp FP | SP | String literals | ...stack frames...
-    // ----------------------------------------------------------
+    global_block: Option<&Block>,
+) -> VariableAllocationMap {
+    // -----------------------------------------------------------------------------
+    // | FP | temp FP | SP | String literals | Global vars | Args | ...stack frames...
+    // -----------------------------------------------------------------------------
     // initialise with placeholder values for frame ptr and stack ptr
     let mut data: Vec<u8> = vec![0x00; (3 * PTR_SIZE) as usize];
 
@@ -40,6 +47,16 @@ pub fn initialise_memory(
         data.push(0x00);
     }
 
+    // reserve (zero-initialised) space for the global vars, below where the runtime puts the
+    // program arguments
+    let mut global_var_addrs = HashMap::new();
+    if let Some(global_block) = global_block {
+        let (var_addrs, end_addr) =
+            allocate_global_vars(global_block, data.len() as u32, prog_metadata);
+        global_var_addrs = var_addrs;
+        data.resize(end_addr as usize, 0x00);
+    }
+
     // set stack ptr to point at top of stack
     let stack_ptr_value = data.len();
     info!("Setting stack ptr to {}", stack_ptr_value);
@@ -69,5 +86,5 @@ pub fn initialise_memory(
     };
     wasm_module.imports_section.imports.push(memory_import);
 
-    stack_ptr_value as u32
+    global_var_addrs
 }
diff --git a/src/back_end/stack_allocation/allocate_vars.rs b/src/back_end/stack_allocation/allocate_vars.rs
index 7832453..fe55ad0 100644
--- a/src/back_end/stack_allocation/allocate_vars.rs
+++ b/src/back_end/stack_allocation/allocate_vars.rs
@@ -80,16 +80,8 @@ pub fn allocate_local_vars(
 
 pub fn allocate_global_vars(
     block: &Block,
-    initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
+    global_vars_start_addr: u32,
     prog_metadata: &ProgramMetadata,
-) -> VariableAllocationMap {
-    naive_allocate_global_vars(
-        block,
-        initial_top_of_stack_addr,
-        wasm_instrs,
-        module_context,
-        prog_metadata,
-    )
+) -> (VariableAllocationMap, u32) {
+    naive_allocate_global_vars(block, global_vars_start_addr, prog_metadata)
 }
diff --git a/src/back_end/stack_allocation/naive_allocation.rs b/src/back_end/stack_allocation/naive_allocation.rs
index 4e86782..4852d14 100644
--- a/src/back_end/stack_allocation/naive_allocation.rs
+++ b/src/back_end/stack_allocation/naive_allocation.rs
@@ -49,19 +49,16 @@ pub fn naive_allocate_local_vars(
     var_offsets
 }
 
+/// Returns the addresses of the global vars, and the first address after them
 pub fn naive_allocate_global_vars(
     block: &Block,
-    initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
+    global_vars_start_addr: u32,
     prog_metadata: &ProgramMetadata,
-) -> VariableAllocationMap {
+) -> (VariableAllocationMap, u32) {
     let global_vars = get_vars_from_block(block, prog_metadata);
 
     let mut var_addrs = HashMap::new();
-    let mut addr = initial_top_of_stack_addr;
-    // how much to increment the stack pointer by when we've allocated all vars
-    let mut stack_ptr_increment = 0;
+    let mut addr = global_vars_start_addr;
 
     // calculate addr of each global var
     for (var_id, var_type) in global_vars {
@@ -73,10 +70,7 @@ pub fn naive_allocate_global_vars(
         };
         var_addrs.insert(var_id, addr);
         addr += byte_size as u32;
-        stack_ptr_increment += byte_size as u32;
     }
 
-    increment_stack_ptr_by_known_offset(stack_ptr_increment, wasm_instrs, module_context);
-
-    var_addrs
+    (var_addrs, addr)
 }
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 57dfddf..910328f 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -10,7 +10,7 @@ use crate::back_end::memory_operations::{
     load, load_constant, load_src, load_var, load_var_address, store, store_var,
 };
 use crate::back_end::profiler::initialise_profiler;
-use crate::back_end::stack_allocation::allocate_vars::{allocate_global_vars, allocate_local_vars};
+use crate::back_end::stack_allocation::allocate_vars::allocate_local_vars;
 use crate::back_end::stack_frame_operations::{
     increment_stack_ptr_by_known_offset, increment_stack_ptr_dynamic, load_frame_ptr,
     load_stack_ptr, overwrite_current_stack_frame_with_new_stack_frame, pop_stack_frame,
@@ -56,10 +56,11 @@ pub fn generate_target_code(
 
     module_context.calculate_func_idxs(&imported_functions, &defined_functions);
 
-    let initial_top_of_stack_addr = initialise_memory(
+    let global_var_addrs = initialise_memory(
         &mut wasm_module,
         &mut module_context,
         &prog.program_metadata,
+        prog.program_blocks.global_instrs.as_ref(),
     );
 
     let mut func_idx_to_type_idx_map: HashMap<FuncIdx, TypeIdx> = HashMap::new();
@@ -99,16 +100,7 @@ pub fn generate_target_code(
     // set frame ptr to start of this frame
     set_frame_ptr_to_stack_ptr(&mut global_wasm_instrs);
 
-    let mut global_var_addrs = HashMap::new();
     if let Some(global_block) = prog.program_blocks.global_instrs {
-        global_var_addrs = allocate_global_vars(
-            &global_block,
-            initial_top_of_stack_addr,
-            &mut global_wasm_instrs,
-            &module_context,
-            &prog.program_metadata,
-        );
-
         // let var_offsets = allocate_local_vars(
         //     &global_block,
         //     &mut global_wasm_instrs,
-- 
2.43.0


From 9856310736a5689fdf6ed32640f0501da19bece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 12/90] fix: functions share global variables, and stores
 visible through pointers are not dead

---
 .../dataflow_analysis/dead_code_analysis.rs   | 26 ++++++++++++++++---
 .../stack_allocation/allocate_vars.rs         |  3 +++
 .../stack_allocation/naive_allocation.rs      |  3 +++
 .../stack_allocation/optimised_allocation.rs  |  5 +++-
 src/back_end/target_code_generation.rs        |  1 +
 5 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index 699fa22..71f313c 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -1,17 +1,30 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use log::debug;
 
 use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgraph};
 use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
-use crate::middle_end::instructions::Instruction;
+use crate::back_end::stack_allocation::allocate_vars::VariableAllocationMap;
+use crate::middle_end::instructions::{Instruction, Src};
 use crate::middle_end::ir::ProgramMetadata;
 use crate::relooper::blocks::Block;
 
-pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata) -> Flowgraph {
+pub fn remove_dead_vars(
+    block: &mut Block,
+    global_var_addrs: &VariableAllocationMap,
+    prog_metadata: &mut ProgramMetadata,
+) -> Flowgraph {
     let mut flowgraph = generate_flowgraph(block);
 
+    // vars whose address is taken can be read through a pointer
+    let mut address_taken_vars = HashSet::new();
+    for instr in flowgraph.instrs.values() {
+        if let Instruction::AddressOf(_, _, Src::Var(var)) = instr {
+            address_taken_vars.insert(var.to_owned());
+        }
+    }
+
     let mut changes = true;
     while changes {
         changes = false;
@@ -30,6 +43,13 @@ pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata)
 
             let mut at_least_one_def_is_live = false;
             for def_var in defs {
+                // global vars can be read by other functions
+                if global_var_addrs.contains_key(&def_var) || address_taken_vars.contains(&def_var)
+                {
+                    at_least_one_def_is_live = true;
+                    break;
+                }
+
                 // if none of the defined vars are live at any of the successors of this instr,
                 // the instr is dead
 
diff --git a/src/back_end/stack_allocation/allocate_vars.rs b/src/back_end/stack_allocation/allocate_vars.rs
index fe55ad0..5bb670d 100644
--- a/src/back_end/stack_allocation/allocate_vars.rs
+++ b/src/back_end/stack_allocation/allocate_vars.rs
@@ -20,6 +20,7 @@ pub fn allocate_local_vars(
     wasm_instrs: &mut Vec<WasmInstruction>,
     fun_type: IrType,
     fun_param_var_mappings: Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
     enabled_optimisations: &EnabledOptimisations,
@@ -59,6 +60,7 @@ pub fn allocate_local_vars(
         optimised_allocate_local_vars(
             block,
             &fun_param_var_mappings,
+            global_var_addrs,
             offset,
             var_offsets,
             wasm_instrs,
@@ -69,6 +71,7 @@ pub fn allocate_local_vars(
         naive_allocate_local_vars(
             block,
             &fun_param_var_mappings,
+            global_var_addrs,
             offset,
             var_offsets,
             wasm_instrs,
diff --git a/src/back_end/stack_allocation/naive_allocation.rs b/src/back_end/stack_allocation/naive_allocation.rs
index 4852d14..97ad37e 100644
--- a/src/back_end/stack_allocation/naive_allocation.rs
+++ b/src/back_end/stack_allocation/naive_allocation.rs
@@ -13,6 +13,7 @@ use crate::relooper::blocks::Block;
 pub fn naive_allocate_local_vars(
     block: &Block,
     param_vars_not_to_allocate_again: &Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     start_offset: u32,
     mut var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
@@ -25,6 +26,8 @@ pub fn naive_allocate_local_vars(
     for param_var in param_vars_not_to_allocate_again {
         vars.remove(param_var);
     }
+    // global vars already have an address
+    vars.retain(|var, _| !global_var_addrs.contains_key(var));
 
     let mut offset = 0;
 
diff --git a/src/back_end/stack_allocation/optimised_allocation.rs b/src/back_end/stack_allocation/optimised_allocation.rs
index 4ff43a9..dc0671f 100644
--- a/src/back_end/stack_allocation/optimised_allocation.rs
+++ b/src/back_end/stack_allocation/optimised_allocation.rs
@@ -22,13 +22,14 @@ type VarAllocationStack = Vec<VarAndByteSizePair>;
 pub fn optimised_allocate_local_vars(
     block: &mut Block,
     param_vars_not_to_allocate_again: &Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     start_offset: u32,
     var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
 ) -> VariableAllocationMap {
-    remove_dead_vars(block, prog_metadata);
+    remove_dead_vars(block, global_var_addrs, prog_metadata);
 
     debug!("removed dead vars: {}", block);
 
@@ -42,6 +43,8 @@ pub fn optimised_allocate_local_vars(
     for param_var in param_vars_not_to_allocate_again {
         vars_to_allocate.remove(param_var);
     }
+    // global vars already have an address
+    vars_to_allocate.retain(|var, _| !global_var_addrs.contains_key(var));
 
     // pop vars from clash graph onto a stack
     let mut var_allocation_stack: VarAllocationStack = Vec::new();
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 910328f..bcd79a0 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -254,6 +254,7 @@ pub fn generate_target_code(
                 &mut function_wasm_instrs,
                 function.type_info,
                 function.param_var_mappings,
+                &global_var_addrs,
                 &module_context,
                 &mut prog.program_metadata,
                 enabled_optimisations,
-- 
2.43.0


From a10d0d2518bca7641568fe5aa6aa0f144cc727f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 13/90] fix: scale pointer differences, and accept long pointer
 offsets

---
 src/middle_end/ast_to_ir.rs | 191 ++++++++++++++++--------------------
 1 file changed, 84 insertions(+), 107 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index a6fadd8..ab52525 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1,4 +1,4 @@
-use log::{debug, trace};
+use log::trace;
 
 use crate::front_end::ast;
 use crate::front_end::ast::{
@@ -728,6 +728,52 @@ fn convert_return_values_to_return_type(
     Ok(converted_instrs)
 }
 
+/// the byte size of the object that a pointer points to
+fn get_pointer_object_byte_size_src(
+    ptr_type: &IrType,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    match ptr_type.get_pointer_object_byte_size(&prog.program_metadata)? {
+        TypeSize::CompileTime(size) => {
+            Ok((Vec::new(), Src::Constant(Constant::Int(size as i128))))
+        }
+        TypeSize::Runtime(size_expr) => convert_expression_to_ir(size_expr, prog, context),
+    }
+}
+
+/// multiply an index by the byte size of the object a pointer points to, to get the number of
+/// bytes to move the pointer by
+fn convert_to_pointer_offset(
+    index: Src,
+    ptr_type: &IrType,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let (mut instrs, mut index) = unary_convert(index, prog)?;
+    let index_type = index.get_type(&prog.program_metadata)?;
+    index_type.require_integral_type()?;
+    // index should be int not long, so we can add it to ptr
+    if index_type == IrType::I64 || index_type == IrType::U64 {
+        let (mut convert_instrs, converted_index) =
+            get_type_conversion_instrs(index, index_type, IrType::I32, prog)?;
+        instrs.append(&mut convert_instrs);
+        index = converted_index;
+    }
+    let (mut size_instrs, object_byte_size) =
+        get_pointer_object_byte_size_src(ptr_type, prog, context)?;
+    instrs.append(&mut size_instrs);
+    let offset = prog.new_var(ValueType::RValue);
+    prog.add_var_type(offset.to_owned(), IrType::I32)?;
+    instrs.push(Instruction::Mult(
+        prog.new_instr_id(),
+        offset.to_owned(),
+        index,
+        object_byte_size,
+    ));
+    Ok((instrs, Src::Var(offset)))
+}
+
 /// the operand keeps its own type, and a pointer is stepped by the size of the object it
 /// points to. The result is the value of the operand after (prefix) or before (postfix) the step.
 fn convert_increment_or_decrement_to_ir(
@@ -756,15 +802,10 @@ fn convert_increment_or_decrement_to_ir(
         ));
     }
     let step = if value_type.is_pointer_type() {
-        match value_type.get_pointer_object_byte_size(&prog.program_metadata)? {
-            TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
-            TypeSize::Runtime(size_expr) => {
-                let (mut size_expr_instrs, size_var) =
-                    convert_expression_to_ir(size_expr, prog, context)?;
-                instrs.append(&mut size_expr_instrs);
-                size_var
-            }
-        }
+        let (mut size_instrs, object_byte_size) =
+            get_pointer_object_byte_size_src(&value_type, prog, context)?;
+        instrs.append(&mut size_instrs);
+        object_byte_size
     } else {
         Src::Constant(Constant::Int(1))
     };
@@ -869,7 +910,7 @@ pub fn convert_expression_to_ir(
             // unary conversion
             let (mut unary_convert_arr_instrs, arr_var) = unary_convert(arr_var, prog)?;
             instrs.append(&mut unary_convert_arr_instrs);
-            let (mut unary_convert_index_instrs, mut index_var) = unary_convert(index_var, prog)?;
+            let (mut unary_convert_index_instrs, index_var) = unary_convert(index_var, prog)?;
             instrs.append(&mut unary_convert_index_instrs);
             let arr_var_type = arr_var.get_type(&prog.program_metadata)?;
             arr_var_type.require_pointer_type()?;
@@ -878,56 +919,10 @@ pub fn convert_expression_to_ir(
             let index_var_type = index_var.get_type(&prog.program_metadata)?;
             index_var_type.require_integral_type()?;
 
-            match index_var_type {
-                IrType::I64 => {
-                    // index should be int not long, so we can add it to ptr
-                    let temp_index_var = prog.new_var(index_var.get_value_type());
-                    prog.add_var_type(temp_index_var.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::U64toI32(
-                        prog.new_instr_id(),
-                        temp_index_var.to_owned(),
-                        index_var,
-                    ));
-                    index_var = Src::Var(temp_index_var);
-                }
-                IrType::U64 => {
-                    // index should be int not long, so we can add it to ptr
-                    let temp_index_var = prog.new_var(index_var.get_value_type());
-                    prog.add_var_type(temp_index_var.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::I64toI32(
-                        prog.new_instr_id(),
-                        temp_index_var.to_owned(),
-                        index_var,
-                    ));
-                    index_var = Src::Var(temp_index_var);
-                }
-                _ => {}
-            }
-
-            // multiply index by size of element, to get number of bytes to advance ptr by
-            let element_byte_size = arr_inner_type.get_byte_size(&prog.program_metadata);
-            let byte_size_var = match element_byte_size {
-                TypeSize::CompileTime(byte_size) => Src::Constant(Constant::Int(byte_size as i128)),
-                TypeSize::Runtime(byte_size_expr) => {
-                    let (mut byte_size_instrs, byte_size_var) =
-                        convert_expression_to_ir(byte_size_expr, prog, context)?;
-                    instrs.append(&mut byte_size_instrs);
-                    byte_size_var
-                }
-            };
-            let (mut binary_convert_instrs, left_var, right_var) =
-                binary_convert(index_var, byte_size_var, prog)?;
-            instrs.append(&mut binary_convert_instrs);
-            let ptr_offset_var = prog.new_var(ValueType::RValue);
-            // left and right vars have same type cos of binary conversion
-            let left_var_type = left_var.get_type(&prog.program_metadata)?;
-            prog.add_var_type(ptr_offset_var.to_owned(), left_var_type)?;
-            instrs.push(Instruction::Mult(
-                prog.new_instr_id(),
-                ptr_offset_var.to_owned(),
-                left_var,
-                right_var,
-            ));
+            // number of bytes to advance ptr by
+            let (mut offset_instrs, ptr_offset) =
+                convert_to_pointer_offset(index_var, &arr_var_type, prog, context)?;
+            instrs.append(&mut offset_instrs);
 
             // array variable is a pointer to the start of the array
             let ptr = prog.new_var(ValueType::LValue);
@@ -936,7 +931,7 @@ pub fn convert_expression_to_ir(
                 prog.new_instr_id(),
                 ptr.to_owned(),
                 arr_var,
-                Src::Var(ptr_offset_var),
+                ptr_offset,
             ));
             if this_expr_directly_on_lhs_of_assignment {
                 // store to array index
@@ -1466,28 +1461,10 @@ pub fn convert_expression_to_ir(
                         // result is the pointer type
                         prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
                         // add to pointer in multiples of the byte size of the type it points to
-                        let temp = prog.new_var(right_var.get_value_type());
-                        prog.add_var_type(temp.to_owned(), right_var_type)?;
-                        let ptr_object_byte_size = match left_var_type
-                            .get_pointer_object_byte_size(&prog.program_metadata)?
-                        {
-                            TypeSize::CompileTime(size) => {
-                                Src::Constant(Constant::Int(size as i128))
-                            }
-                            TypeSize::Runtime(size_expr) => {
-                                let (mut size_expr_instrs, size_var) =
-                                    convert_expression_to_ir(size_expr, prog, context)?;
-                                instrs.append(&mut size_expr_instrs);
-                                size_var
-                            }
-                        };
-                        instrs.push(Instruction::Mult(
-                            prog.new_instr_id(),
-                            temp.to_owned(),
-                            right_var,
-                            ptr_object_byte_size,
-                        ));
-                        right_var = Src::Var(temp);
+                        let (mut offset_instrs, ptr_offset) =
+                            convert_to_pointer_offset(right_var, &left_var_type, prog, context)?;
+                        instrs.append(&mut offset_instrs);
+                        right_var = ptr_offset;
                     }
                     instrs.push(Instruction::Add(
                         prog.new_instr_id(),
@@ -1521,28 +1498,10 @@ pub fn convert_expression_to_ir(
                         prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
 
                         // subtract from pointer in multiples of the byte size it points to
-                        let temp_right_var = prog.new_var(right_var.get_value_type());
-                        prog.add_var_type(temp_right_var.to_owned(), right_var_type)?;
-                        let ptr_object_byte_size = match left_var_type
-                            .get_pointer_object_byte_size(&prog.program_metadata)?
-                        {
-                            TypeSize::CompileTime(size) => {
-                                Src::Constant(Constant::Int(size as i128))
-                            }
-                            TypeSize::Runtime(size_expr) => {
-                                let (mut size_expr_instrs, size_var) =
-                                    convert_expression_to_ir(size_expr, prog, context)?;
-                                instrs.append(&mut size_expr_instrs);
-                                size_var
-                            }
-                        };
-                        instrs.push(Instruction::Mult(
-                            prog.new_instr_id(),
-                            temp_right_var.to_owned(),
-                            right_var,
-                            ptr_object_byte_size,
-                        ));
-                        right_var = Src::Var(temp_right_var);
+                        let (mut offset_instrs, ptr_offset) =
+                            convert_to_pointer_offset(right_var, &left_var_type, prog, context)?;
+                        instrs.append(&mut offset_instrs);
+                        right_var = ptr_offset;
 
                         // convert ptr to i32
                         let temp_left_var = prog.new_var(left_var.get_value_type());
@@ -1554,8 +1513,26 @@ pub fn convert_expression_to_ir(
                         ));
                         left_var = Src::Var(temp_left_var);
                     } else {
-                        // pointer - pointer -> int
+                        // pointer - pointer -> int, the number of objects between them
+                        let byte_difference = prog.new_var(ValueType::RValue);
+                        prog.add_var_type(byte_difference.to_owned(), IrType::I32)?;
+                        instrs.push(Instruction::Sub(
+                            prog.new_instr_id(),
+                            byte_difference.to_owned(),
+                            left_var,
+                            right_var,
+                        ));
+                        let (mut size_instrs, object_byte_size) =
+                            get_pointer_object_byte_size_src(&left_var_type, prog, context)?;
+                        instrs.append(&mut size_instrs);
                         prog.add_var_type(dest.to_owned(), IrType::I32)?;
+                        instrs.push(Instruction::Div(
+                            prog.new_instr_id(),
+                            dest.to_owned(),
+                            Src::Var(byte_difference),
+                            object_byte_size,
+                        ));
+                        return Ok((instrs, Src::Var(dest)));
                     }
                     instrs.push(Instruction::Sub(
                         prog.new_instr_id(),
-- 
2.43.0


From 24313c65fbad1cf93a59af97b31ae8c0f2ec686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 14/90] fix: accept every spelling of the integer types

---
 src/front_end/ast.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index 0d98dd7..f7f7fb4 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -602,17 +602,17 @@ impl ArithmeticType {
             // unsigned char
             0b00_10_0001 => Ok(ArithmeticType::U8),
             // signed short
-            0b00_00_0010 | 0b00_01_0010 => Ok(ArithmeticType::I16),
+            0b00_00_0010 | 0b00_01_0010 | 0b00_00_0110 | 0b00_01_0110 => Ok(ArithmeticType::I16),
             // unsigned short
-            0b00_10_0010 => Ok(ArithmeticType::U16),
+            0b00_10_0010 | 0b00_10_0110 => Ok(ArithmeticType::U16),
             // signed int
-            0b00_00_0100 | 0b00_01_0100 => Ok(ArithmeticType::I32),
+            0b00_00_0100 | 0b00_01_0100 | 0b00_01_0000 => Ok(ArithmeticType::I32),
             // unsigned int
-            0b00_10_0100 => Ok(ArithmeticType::U32),
+            0b00_10_0100 | 0b00_10_0000 => Ok(ArithmeticType::U32),
             // signed long
-            0b00_00_1000 | 0b00_01_1000 => Ok(ArithmeticType::I64),
+            0b00_00_1000 | 0b00_01_1000 | 0b00_00_1100 | 0b00_01_1100 => Ok(ArithmeticType::I64),
             // unsigned long
-            0b00_10_1000 => Ok(ArithmeticType::U64),
+            0b00_10_1000 | 0b00_10_1100 => Ok(ArithmeticType::U64),
             // float
             0b01_00_0000 => Ok(ArithmeticType::F32),
             // double
-- 
2.43.0


From 6ef98f0ff1c988b0ad5c1f5fe249eae587b0e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 15/90] fix: result types of unary minus, logical not and
 shifts

---
 src/back_end/target_code_generation.rs |  6 ++--
 src/middle_end/ast_to_ir.rs            | 48 ++++++++++++++++++--------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index bcd79a0..5555b50 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -628,12 +628,12 @@ fn convert_ir_instr_to_wasm(
             // logical not is implemented as a test-for-zero and set
             //
             // load src
-            let dest_type = prog_metadata.get_var_type(&dest).unwrap();
+            let src_type = src.get_type(prog_metadata).unwrap();
 
             let mut temp_instrs = Vec::new();
             load_src(
                 src,
-                dest_type.to_owned(),
+                src_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
@@ -641,7 +641,7 @@ fn convert_ir_instr_to_wasm(
 
             // logical not
             // test if src is zero
-            match dest_type {
+            match src_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index ab52525..9db06e0 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1248,10 +1248,9 @@ pub fn convert_expression_to_ir(
                 // }
                 UnaryOperator::Plus => {
                     let dest = prog.new_var(ValueType::RValue);
-                    instrs.push(Instruction::Add(
+                    instrs.push(Instruction::SimpleAssignment(
                         prog.new_instr_id(),
                         dest.to_owned(),
-                        Src::Constant(Constant::Int(0)),
                         expr_var,
                     ));
                     if !expr_var_type.is_arithmetic_type() {
@@ -1265,10 +1264,15 @@ pub fn convert_expression_to_ir(
                 }
                 UnaryOperator::Minus => {
                     let dest = prog.new_var(ValueType::RValue);
+                    // -0.0 - x negates every floating point x, including zero
+                    let zero = match expr_var_type {
+                        IrType::F32 | IrType::F64 => Constant::Float(-0.0),
+                        _ => Constant::Int(0),
+                    };
                     instrs.push(Instruction::Sub(
                         prog.new_instr_id(),
                         dest.to_owned(),
-                        Src::Constant(Constant::Int(0)),
+                        Src::Constant(zero),
                         expr_var,
                     ));
                     if !expr_var_type.is_arithmetic_type() {
@@ -1276,8 +1280,8 @@ pub fn convert_expression_to_ir(
                             "Unary minus of a non-arithmetic type",
                         ));
                     }
-                    let dest_type = expr_var_type.smallest_signed_equivalent()?;
-                    prog.add_var_type(dest.to_owned(), dest_type)?;
+                    // type of dest is same as (promoted) type of src
+                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
                     Ok((instrs, Src::Var(dest)))
                 }
                 UnaryOperator::BitwiseNot => {
@@ -1308,8 +1312,8 @@ pub fn convert_expression_to_ir(
                             "Logical not of a non-scalar type",
                         ));
                     }
-                    // dest type is same as src
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
+                    // result is always int 0 or 1
+                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
                     Ok((instrs, Src::Var(dest)))
                 }
                 _ => unreachable!("other cases handled separately"),
@@ -1542,13 +1546,20 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 BinaryOperator::LeftShift => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
+                    // the operands are promoted separately, and the result has the type of the
+                    // left operand
+                    let (mut left_convert_instrs, left_var) = unary_convert(left_var, prog)?;
+                    instrs.append(&mut left_convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
                     left_var_type.require_integral_type()?;
                     right_var_type.require_integral_type()?;
+                    let (mut right_convert_instrs, right_var) = get_type_conversion_instrs(
+                        right_var,
+                        right_var_type,
+                        left_var_type.to_owned(),
+                        prog,
+                    )?;
+                    instrs.append(&mut right_convert_instrs);
                     prog.add_var_type(dest.to_owned(), left_var_type)?;
                     instrs.push(Instruction::LeftShift(
                         prog.new_instr_id(),
@@ -1558,13 +1569,20 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 BinaryOperator::RightShift => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
+                    // the operands are promoted separately, and the result has the type of the
+                    // left operand
+                    let (mut left_convert_instrs, left_var) = unary_convert(left_var, prog)?;
+                    instrs.append(&mut left_convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
                     left_var_type.require_integral_type()?;
                     right_var_type.require_integral_type()?;
+                    let (mut right_convert_instrs, right_var) = get_type_conversion_instrs(
+                        right_var,
+                        right_var_type,
+                        left_var_type.to_owned(),
+                        prog,
+                    )?;
+                    instrs.append(&mut right_convert_instrs);
                     prog.add_var_type(dest.to_owned(), left_var_type)?;
                     instrs.push(Instruction::RightShift(
                         prog.new_instr_id(),
-- 
2.43.0


From c62d1c50cd19f7fb39945d80c0017449b8a5b48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 16/90] fix: short-circuit && and ||

---
 src/middle_end/ast_to_ir.rs | 87 ++++++++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 25 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 9db06e0..3ebf1a2 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1375,6 +1375,66 @@ pub fn convert_expression_to_ir(
             ));
             Ok((instrs, Src::Var(dest)))
         }
+        Expression::BinaryOp(
+            op @ (BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr),
+            left,
+            right,
+        ) => {
+            // the right operand is only evaluated if the left operand doesn't already decide
+            // the result
+            let result_if_short_circuited = match op {
+                BinaryOperator::LogicalAnd => 0,
+                _ => 1,
+            };
+            let dest = prog.new_var(ValueType::RValue);
+            // result is always int 0 or 1
+            prog.add_var_type(dest.to_owned(), IrType::I32)?;
+            let short_circuit_label = prog.new_label();
+            let end_label = prog.new_label();
+            for operand in [left, right] {
+                let (mut operand_instrs, operand_var) =
+                    convert_expression_to_ir(*operand, prog, context)?;
+                instrs.append(&mut operand_instrs);
+                // no binary conversion for logical AND and OR
+                let (mut unary_convert_instrs, operand_var) = unary_convert(operand_var, prog)?;
+                instrs.append(&mut unary_convert_instrs);
+                operand_var
+                    .get_type(&prog.program_metadata)?
+                    .require_scalar_type()?;
+                let zero = Src::Constant(Constant::Int(0));
+                instrs.push(match op {
+                    BinaryOperator::LogicalAnd => Instruction::BrIfEq(
+                        prog.new_instr_id(),
+                        operand_var,
+                        zero,
+                        short_circuit_label.to_owned(),
+                    ),
+                    _ => Instruction::BrIfNotEq(
+                        prog.new_instr_id(),
+                        operand_var,
+                        zero,
+                        short_circuit_label.to_owned(),
+                    ),
+                });
+            }
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                Src::Constant(Constant::Int(1 - result_if_short_circuited)),
+            ));
+            instrs.push(Instruction::Br(prog.new_instr_id(), end_label.to_owned()));
+            instrs.push(Instruction::Label(
+                prog.new_instr_id(),
+                short_circuit_label,
+            ));
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                Src::Constant(Constant::Int(result_if_short_circuited)),
+            ));
+            instrs.push(Instruction::Label(prog.new_instr_id(), end_label));
+            Ok((instrs, Src::Var(dest)))
+        }
         Expression::BinaryOp(op, left, right) => {
             let (mut left_instrs, left_var) = convert_expression_to_ir(*left, prog, context)?;
             instrs.append(&mut left_instrs);
@@ -1785,31 +1845,8 @@ pub fn convert_expression_to_ir(
                         right_var,
                     ));
                 }
-                BinaryOperator::LogicalAnd => {
-                    // no binary conversion for logical AND and OR
-                    left_var_type.require_scalar_type()?;
-                    right_var_type.require_scalar_type()?;
-                    // result is always int 0 or 1
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::LogicalAnd(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::LogicalOr => {
-                    // no binary conversion for logical AND and OR
-                    left_var_type.require_scalar_type()?;
-                    right_var_type.require_scalar_type()?;
-                    // result is always int 0 or 1
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::LogicalOr(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
+                BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr => {
+                    unreachable!("logical AND and OR handled separately")
                 }
             }
             Ok((instrs, Src::Var(dest)))
-- 
2.43.0


From 24077d5bf3b1ca5fc8efa4854f1b92568aaab744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:58 +0000
Subject: [PATCH 17/90] fix: drop instructions after an unconditional branch,
 which no label reaches

---
 src/relooper/soupify.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/relooper/soupify.rs b/src/relooper/soupify.rs
index 01131cd..0ab1f02 100644
--- a/src/relooper/soupify.rs
+++ b/src/relooper/soupify.rs
@@ -214,6 +214,9 @@ fn instructions_to_soup_of_labels(instrs: Vec<Instruction>) -> (HashMap<LabelId,
     let mut labels = HashMap::new();
     let mut current_label_id: Option<LabelId> = None;
     let mut entry: Option<LabelId> = None;
+    // instructions between an unconditional branch or a return and the next label can never
+    // be executed
+    let mut is_unreachable = false;
     for instr in instrs {
         match instr {
             Instruction::Label(_, label_id) => {
@@ -222,11 +225,14 @@ fn instructions_to_soup_of_labels(instrs: Vec<Instruction>) -> (HashMap<LabelId,
                     entry = Some(label_id.to_owned());
                 }
                 // start of a new block
+                is_unreachable = false;
                 current_label_id = Some(label_id.to_owned());
                 let new_label = Label::new(label_id.to_owned());
                 labels.insert(label_id, new_label);
             }
+            _ if is_unreachable => {}
             i => {
+                is_unreachable = matches!(i, Instruction::Br(..) | Instruction::Ret(..));
                 // any other instruction is continuation of the current block
                 if let Some(current_label_id) = &current_label_id {
                     labels.get_mut(current_label_id).unwrap().instrs.push(i);
-- 
2.43.0


From 5939139a6aeea552b9b7cd3081534defc838f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:58 +0000
Subject: [PATCH 18/90] fix: keep the entries of a loop with several entries
 inside the loop

---
 src/relooper/relooper.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index c4e42e2..f78de64 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -492,9 +492,10 @@ fn create_loop_block(
 ) -> Block {
     let mut inner_labels: Labels = HashMap::new();
     let mut next_labels: Labels = HashMap::new();
-    // find the labels that can return to one of the entries, and those that can't
+    // find the labels that can return to one of the entries, and those that can't. The entries
+    // themselves are always part of the loop, since that is where they are entered
     for (label_id, label) in labels {
-        let mut can_return = false;
+        let mut can_return = entries.contains(&label_id);
         for entry in &entries {
             if reachability.get(&label_id).unwrap().contains(entry) {
                 can_return = true;
-- 
2.43.0


From cb3b8ebb17961233aefd4fea3251186db629ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:58 +0000
Subject: [PATCH 19/90] fix: emit switch cases in place, and let a goto come
 before its label

---
 src/middle_end/ast_to_ir.rs        | 99 +++++++++++++++++-------------
 src/middle_end/context.rs          | 82 ++++---------------------
 src/middle_end/middle_end_error.rs |  1 -
 3 files changed, 66 insertions(+), 116 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 3ebf1a2..3404562 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -258,24 +258,23 @@ fn convert_statement_to_ir(
             let (mut expr_instrs, switch_src) =
                 convert_expression_to_ir(switch_expr, prog, context)?;
             instrs.append(&mut expr_instrs);
-            let switch_var = match switch_src {
-                Src::Var(var) => var,
-                Src::Constant(c) => {
-                    let temp = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(temp.to_owned(), c.get_type(None))?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        temp.to_owned(),
-                        Src::Constant(c),
-                    ));
-                    temp
-                }
-                Src::Fun(_) | Src::StoreAddressVar(_) => unreachable!(),
-            };
+            // the switch value is promoted, and kept in a variable of its own, since the switch
+            // body may change the variables it was computed from
+            let (mut unary_convert_instrs, switch_src) = unary_convert(switch_src, prog)?;
+            instrs.append(&mut unary_convert_instrs);
+            let switch_type = switch_src.get_type(&prog.program_metadata)?;
+            switch_type.require_integral_type()?;
+            let switch_var = prog.new_var(ValueType::RValue);
+            prog.add_var_type(switch_var.to_owned(), switch_type)?;
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                switch_var.to_owned(),
+                switch_src,
+            ));
             context.push_switch(SwitchContext::new(switch_end_label.to_owned(), switch_var));
-            // convert switch body - ignore the return, because the instrs will
-            // be stored into the SwitchContext, and we'll get them from there after
-            convert_statement_to_ir(*body, prog, context)?;
+            // the labels and the instructions of the cases are part of the switch body. The
+            // case conditions are stored into the SwitchContext
+            let mut body_instrs = convert_statement_to_ir(*body, prog, context)?;
 
             let mut switch_context = context.pop_switch()?;
 
@@ -297,9 +296,7 @@ fn convert_statement_to_ir(
             }
 
             // add case bodies
-            for mut case_body_instrs in switch_context.case_blocks {
-                instrs.append(&mut case_body_instrs);
-            }
+            instrs.append(&mut body_instrs);
 
             // end of switch label
             instrs.push(Instruction::Label(prog.new_instr_id(), switch_end_label));
@@ -307,7 +304,11 @@ fn convert_statement_to_ir(
         Statement::Labelled(stmt) => {
             match stmt {
                 LabelledStatement::Named(Identifier(label_name), stmt) => {
-                    let label = prog.new_identifier_label(label_name);
+                    // the label may already have been created by an earlier goto statement
+                    let label = match prog.resolve_identifier_to_label(&label_name) {
+                        Some(label) => label.to_owned(),
+                        None => prog.new_identifier_label(label_name),
+                    };
                     instrs.push(Instruction::Label(prog.new_instr_id(), label));
                     instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
@@ -318,37 +319,33 @@ fn convert_statement_to_ir(
                     }
                     let (mut condition_instrs, expr_var) =
                         convert_expression_to_ir(expr, prog, context)?;
+                    let switch_var = context.get_switch_variable().unwrap();
+                    // the case value is converted to the type of the switch value
+                    let expr_type = expr_var.get_type(&prog.program_metadata)?;
+                    let switch_type = prog.get_var_type(&switch_var)?;
+                    let (mut convert_instrs, expr_var) =
+                        convert_type_for_assignment(expr_var, expr_type, switch_type, prog)?;
+                    condition_instrs.append(&mut convert_instrs);
                     let case_body_label = prog.new_label();
                     // check if case condition matches the switch expression
-                    // if so, jump to the corresponding block
+                    // if so, jump to the corresponding label
                     condition_instrs.push(Instruction::BrIfEq(
                         prog.new_instr_id(),
-                        Src::Var(context.get_switch_variable().unwrap()),
+                        Src::Var(switch_var),
                         expr_var,
                         case_body_label.to_owned(),
                     ));
-                    context.new_switch_case_block(
-                        case_body_label,
-                        condition_instrs,
-                        &mut prog.program_metadata,
-                    )?;
-                    // start of case body - the result of this will be automatically pushed to
-                    // the case block we just created, because we're in a switch context
-                    convert_statement_to_ir(*stmt, prog, context)?;
-                    return Ok(instrs);
+                    context.add_switch_case_condition(condition_instrs)?;
+                    instrs.push(Instruction::Label(prog.new_instr_id(), case_body_label));
+                    instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
                 LabelledStatement::Default(stmt) => {
                     let case_body_label = prog.new_label();
                     context.add_default_switch_block_label(case_body_label.to_owned())?;
                     // default case has no condition instruction to add, because it'll get added
                     // at the end of converting the whole switch statement
-                    context.new_switch_case_block(
-                        case_body_label,
-                        Vec::new(),
-                        &mut prog.program_metadata,
-                    )?;
-                    convert_statement_to_ir(*stmt, prog, context)?;
-                    return Ok(instrs);
+                    instrs.push(Instruction::Label(prog.new_instr_id(), case_body_label));
+                    instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
             }
         }
@@ -683,6 +680,9 @@ fn convert_statement_to_ir(
             context.add_function_declaration(name.to_owned(), fun_id)?;
             // function body instructions
             let instrs = convert_statement_to_ir(*body, prog, context)?;
+            // label names are local to the function
+            check_all_named_labels_are_defined(&instrs, prog)?;
+            prog.program_metadata.label_ids.clear();
             let instrs = convert_return_values_to_return_type(instrs, &type_info, prog)?;
             // update function in program with full body
             let fun = Function::new(instrs, type_info, param_var_mappings);
@@ -692,14 +692,25 @@ fn convert_statement_to_ir(
         Statement::Empty => {}
     }
 
-    if context.is_in_switch_context() {
-        context.push_instrs_to_switch_case_block(instrs)?;
-        return Ok(Vec::new());
-    }
-
     Ok(instrs)
 }
 
+/// a label that is only named by goto statements would leave them nowhere to go
+fn check_all_named_labels_are_defined(
+    instrs: &[Instruction],
+    prog: &Program,
+) -> Result<(), MiddleEndError> {
+    for (name, label) in &prog.program_metadata.label_ids {
+        let is_defined = instrs
+            .iter()
+            .any(|instr| matches!(instr, Instruction::Label(_, l) if l == label));
+        if !is_defined {
+            return Err(MiddleEndError::UndeclaredIdentifier(name.to_owned()));
+        }
+    }
+    Ok(())
+}
+
 /// a returned value is converted, as if by assignment, to the return type of the function
 fn convert_return_values_to_return_type(
     instrs: Vec<Instruction>,
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 364dd08..fe2fa1a 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -4,7 +4,6 @@ use log::trace;
 
 use crate::middle_end::ids::{FunId, LabelId, StructId, UnionId, VarId};
 use crate::middle_end::instructions::Instruction;
-use crate::middle_end::ir::ProgramMetadata;
 use crate::middle_end::ir_types::{EnumConstant, IrType};
 use crate::middle_end::middle_end_error::MiddleEndError;
 
@@ -76,6 +75,9 @@ impl Context {
                 Some(LoopOrSwitchContext::Switch(_)) => {}
             }
             // if context was a switch context, keep looking backwards for the top loop context
+            if i == 0 {
+                return None;
+            }
             i -= 1;
         }
     }
@@ -118,66 +120,19 @@ impl Context {
         }
     }
 
-    pub fn new_switch_case_block(
+    pub fn add_switch_case_condition(
         &mut self,
-        case_body_label: LabelId,
         mut case_condition_instrs: Vec<Instruction>,
-        prog_metadata: &mut ProgramMetadata,
-    ) -> Result<(), MiddleEndError> {
-        if self.loop_stack.is_empty() {
-            return Err(MiddleEndError::CaseOutsideSwitchContext);
-        }
-        let mut i = self.loop_stack.len() - 1;
-        loop {
-            match self.loop_stack.get_mut(i) {
-                None => return Err(MiddleEndError::CaseOutsideSwitchContext),
-                Some(loop_or_switch_context) => match loop_or_switch_context {
-                    LoopOrSwitchContext::Loop(_) => {}
-                    LoopOrSwitchContext::Switch(switch_context) => {
-                        // every case block must have a label so it can be jumped to,
-                        // so enforce that by adding it here
-                        let case_instrs = vec![Instruction::Label(
-                            prog_metadata.new_instr_id(),
-                            case_body_label,
-                        )];
-                        switch_context.case_blocks.push(case_instrs);
-                        switch_context
-                            .case_condition_instrs
-                            .append(&mut case_condition_instrs);
-                        return Ok(());
-                    }
-                },
-            }
-            if i == 0 {
-                return Err(MiddleEndError::CaseOutsideSwitchContext);
-            }
-            i -= 1;
-        }
-    }
-
-    pub fn push_instrs_to_switch_case_block(
-        &mut self,
-        instrs: Vec<Instruction>,
     ) -> Result<(), MiddleEndError> {
-        if self.loop_stack.is_empty() {
-            return Err(MiddleEndError::CaseOutsideSwitchContext);
-        }
-        let mut i = self.loop_stack.len() - 1;
-        loop {
-            match self.loop_stack.get_mut(i) {
-                None => return Err(MiddleEndError::CaseOutsideSwitchContext),
-                Some(loop_or_switch_context) => match loop_or_switch_context {
-                    LoopOrSwitchContext::Loop(_) => {}
-                    LoopOrSwitchContext::Switch(switch_context) => {
-                        return switch_context.push_instrs_to_last_case_block(instrs);
-                    }
-                },
-            }
-            if i == 0 {
-                return Err(MiddleEndError::CaseOutsideSwitchContext);
+        for loop_or_switch_context in self.loop_stack.iter_mut().rev() {
+            if let LoopOrSwitchContext::Switch(switch_context) = loop_or_switch_context {
+                switch_context
+                    .case_condition_instrs
+                    .append(&mut case_condition_instrs);
+                return Ok(());
             }
-            i -= 1;
         }
+        Err(MiddleEndError::CaseOutsideSwitchContext)
     }
 
     pub fn add_default_switch_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
@@ -635,7 +590,6 @@ pub struct SwitchContext {
     pub end_label: LabelId,
     pub switch_var: VarId,
     pub case_condition_instrs: Vec<Instruction>,
-    pub case_blocks: Vec<Vec<Instruction>>,
     pub default_block_label: Option<LabelId>,
 }
 
@@ -645,24 +599,10 @@ impl SwitchContext {
             end_label,
             switch_var,
             case_condition_instrs: Vec::new(),
-            case_blocks: Vec::new(),
             default_block_label: None,
         }
     }
 
-    fn push_instrs_to_last_case_block(
-        &mut self,
-        mut instrs: Vec<Instruction>,
-    ) -> Result<(), MiddleEndError> {
-        match self.case_blocks.last_mut() {
-            None => Err(MiddleEndError::NoCaseBlockToPushInstructionTo),
-            Some(block_instrs) => {
-                block_instrs.append(&mut instrs);
-                Ok(())
-            }
-        }
-    }
-
     fn add_default_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
         match self.default_block_label {
             None => {
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index 11180d2..e63c39b 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -12,7 +12,6 @@ pub enum MiddleEndError {
     CaseOutsideSwitchContext,
     DefaultOutsideSwitchContext,
     MultipleDefaultCasesInSwitch,
-    NoCaseBlockToPushInstructionTo,
     /// in theory this should never occur
     LoopNestingError,
     UndeclaredIdentifier(String),
-- 
2.43.0


From 42878fe9889b53f1a59f567006243950f76dd65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:59 +0000
Subject: [PATCH 20/90] fix: limit a variable declared in a for initialiser to
 the loop

---
 src/middle_end/ast_to_ir.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 3404562..50fa902 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -144,6 +144,8 @@ fn convert_statement_to_ir(
             context.pop_loop();
         }
         Statement::For(init, cond, end, body) => {
+            // the scope of a variable declared in the initialiser is the loop
+            context.push_scope();
             let loop_start_label = prog.new_label();
             let loop_end_label = prog.new_label();
             let loop_continue_label = prog.new_label();
@@ -211,6 +213,7 @@ fn convert_statement_to_ir(
             // end of loop label
             instrs.push(Instruction::Label(prog.new_instr_id(), loop_end_label));
             context.pop_loop();
+            context.pop_scope();
         }
         Statement::If(cond, body) => {
             // if statement condition
-- 
2.43.0


From bfb386218bea6e978c15ae5c738bccece6f6ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:46 +0000
Subject: [PATCH 21/90] fix: take the address of the object itself in & and
 member selection

---
 src/middle_end/ast_to_ir.rs | 79 ++++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 18 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 50fa902..c1a826c 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1006,22 +1006,34 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::DirectMemberSelection(obj, Identifier(member_name)) => {
+            context.directly_on_lhs_of_assignment = true;
             let (mut obj_instrs, obj_var) = convert_expression_to_ir(*obj, prog, context)?;
+            context.directly_on_lhs_of_assignment = false;
             instrs.append(&mut obj_instrs);
-            let obj_var_type = obj_var.get_type(&prog.program_metadata)?;
+            let mut obj_var_type = obj_var.get_type(&prog.program_metadata)?;
+            if let Src::StoreAddressVar(_) = obj_var {
+                obj_var_type = obj_var_type.dereference_pointer_type()?;
+            }
             obj_var_type.require_struct_or_union_type()?;
 
-            // obj_ptr = &obj_var
-            let obj_ptr = prog.new_var(obj_var.get_value_type());
-            prog.add_var_type(
-                obj_ptr.to_owned(),
-                IrType::PointerTo(Box::new(obj_var_type.to_owned())),
-            )?;
-            instrs.push(Instruction::AddressOf(
-                prog.new_instr_id(),
-                obj_ptr.to_owned(),
-                obj_var,
-            ));
+            let obj_ptr = match obj_var {
+                // the object is already given by its address
+                Src::StoreAddressVar(ptr) => ptr,
+                obj_var => {
+                    // obj_ptr = &obj_var
+                    let obj_ptr = prog.new_var(obj_var.get_value_type());
+                    prog.add_var_type(
+                        obj_ptr.to_owned(),
+                        IrType::PointerTo(Box::new(obj_var_type.to_owned())),
+                    )?;
+                    instrs.push(Instruction::AddressOf(
+                        prog.new_instr_id(),
+                        obj_ptr.to_owned(),
+                        obj_var,
+                    ));
+                    obj_ptr
+                }
+            };
 
             match obj_var_type {
                 IrType::Struct(struct_id) => {
@@ -1061,19 +1073,30 @@ pub fn convert_expression_to_ir(
                 IrType::Union(union_id) => {
                     let union_type = prog.get_union_type(&union_id)?;
                     let member_type = union_type.get_member_type(&member_name)?;
+                    // ptr = obj_ptr, as a pointer to the member
+                    let ptr = prog.new_var(ValueType::LValue);
+                    prog.add_var_type(
+                        ptr.to_owned(),
+                        IrType::PointerTo(Box::new(member_type.to_owned())),
+                    )?;
+                    instrs.push(Instruction::SimpleAssignment(
+                        prog.new_instr_id(),
+                        ptr.to_owned(),
+                        Src::Var(obj_ptr),
+                    ));
 
                     if this_expr_directly_on_lhs_of_assignment {
                         // store to union
-                        Ok((instrs, Src::StoreAddressVar(obj_ptr)))
+                        Ok((instrs, Src::StoreAddressVar(ptr)))
                     } else {
                         // load from union
                         let dest = prog.new_var(ValueType::LValue);
                         prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *obj_ptr
+                        // dest = *ptr
                         instrs.push(Instruction::LoadFromAddress(
                             prog.new_instr_id(),
                             dest.to_owned(),
-                            Src::Var(obj_ptr),
+                            Src::Var(ptr),
                         ));
                         Ok((instrs, Src::Var(dest)))
                     }
@@ -1126,19 +1149,30 @@ pub fn convert_expression_to_ir(
                 IrType::Union(union_id) => {
                     let union_type = prog.get_union_type(&union_id)?;
                     let member_type = union_type.get_member_type(&member_name)?;
+                    // ptr = obj_var, as a pointer to the member
+                    let ptr = prog.new_var(ValueType::LValue);
+                    prog.add_var_type(
+                        ptr.to_owned(),
+                        IrType::PointerTo(Box::new(member_type.to_owned())),
+                    )?;
+                    instrs.push(Instruction::SimpleAssignment(
+                        prog.new_instr_id(),
+                        ptr.to_owned(),
+                        obj_var,
+                    ));
 
                     if this_expr_directly_on_lhs_of_assignment {
                         // store to union
-                        Ok((instrs, Src::StoreAddressVar(obj_var.unwrap_var()?)))
+                        Ok((instrs, Src::StoreAddressVar(ptr)))
                     } else {
                         // load from union
                         let dest = prog.new_var(ValueType::LValue);
                         prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *obj_ptr
+                        // dest = *ptr
                         instrs.push(Instruction::LoadFromAddress(
                             prog.new_instr_id(),
                             dest.to_owned(),
-                            obj_var,
+                            Src::Var(ptr),
                         ));
                         Ok((instrs, Src::Var(dest)))
                     }
@@ -1159,8 +1193,17 @@ pub fn convert_expression_to_ir(
             convert_increment_or_decrement_to_ir(*expr, false, true, prog, context)
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
+            context.directly_on_lhs_of_assignment = true;
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
+            context.directly_on_lhs_of_assignment = false;
             instrs.append(&mut expr_instrs);
+            // the operand is already given by its address
+            if let Src::StoreAddressVar(ptr) = expr_var {
+                return Ok((instrs, Src::Var(ptr)));
+            }
+            if !matches!(expr_var, Src::Var(_)) || !expr_var.get_value_type().is_lvalue() {
+                return Err(MiddleEndError::InvalidLValue);
+            }
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
             let dest = prog.new_var(ValueType::RValue);
             instrs.push(Instruction::AddressOf(
-- 
2.43.0


From bdb74a6f7f7d348158c5cdca98e3e27f3e2d90c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 22/90] fix: give struct, union and typedef names their scope,
 and let members point to their own struct

---
 src/middle_end/context.rs           | 54 ++++++++++++++++++++++++-----
 src/middle_end/get_ast_type_info.rs | 44 ++++++++++++++++++-----
 src/middle_end/ir.rs                |  6 ++--
 3 files changed, 86 insertions(+), 18 deletions(-)

diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index fe2fa1a..b69166b 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -4,7 +4,8 @@ use log::trace;
 
 use crate::middle_end::ids::{FunId, LabelId, StructId, UnionId, VarId};
 use crate::middle_end::instructions::Instruction;
-use crate::middle_end::ir_types::{EnumConstant, IrType};
+use crate::middle_end::ir::Program;
+use crate::middle_end::ir_types::{EnumConstant, IrType, StructType, UnionType};
 use crate::middle_end::middle_end_error::MiddleEndError;
 
 #[derive(Debug)]
@@ -278,6 +279,24 @@ impl Context {
         }
     }
 
+    /// the id of a struct that is about to be defined in the current scope, where it may
+    /// already have been declared
+    pub fn declare_struct_tag(
+        &mut self,
+        name: &str,
+        prog: &mut Program,
+    ) -> Result<StructId, MiddleEndError> {
+        let scope = self.scope_stack.last().ok_or(MiddleEndError::ScopeError)?;
+        if let Ok(struct_id) = scope.resolve_struct_tag_to_struct_id(name) {
+            if prog.get_struct_type(&struct_id)?.member_types.is_empty() {
+                return Ok(struct_id);
+            }
+        }
+        let struct_id = prog.add_struct_type(StructType::named(name.to_owned()))?;
+        self.add_struct_tag(name.to_owned(), struct_id.to_owned())?;
+        Ok(struct_id)
+    }
+
     pub fn add_struct_tag(
         &mut self,
         name: String,
@@ -315,6 +334,24 @@ impl Context {
         }
     }
 
+    /// the id of a union that is about to be defined in the current scope, where it may
+    /// already have been declared
+    pub fn declare_union_tag(
+        &mut self,
+        name: &str,
+        prog: &mut Program,
+    ) -> Result<UnionId, MiddleEndError> {
+        let scope = self.scope_stack.last().ok_or(MiddleEndError::ScopeError)?;
+        if let Ok(union_id) = scope.resolve_union_tag_to_union_id(name) {
+            if prog.get_union_type(&union_id)?.member_types.is_empty() {
+                return Ok(union_id);
+            }
+        }
+        let union_id = prog.add_union_type(UnionType::named(name.to_owned()))?;
+        self.add_union_tag(name.to_owned(), union_id.to_owned())?;
+        Ok(union_id)
+    }
+
     pub fn add_union_tag(&mut self, name: String, union_id: UnionId) -> Result<(), MiddleEndError> {
         match self.scope_stack.last_mut() {
             None => Err(MiddleEndError::ScopeError),
@@ -382,15 +419,16 @@ impl Context {
         typedef_name: String,
         type_info: IrType,
     ) -> Result<(), MiddleEndError> {
-        // it's an error to redeclare the same typedef name with a different type
-        if let Ok(t) = self.resolve_typedef(&typedef_name) {
-            if t != type_info {
-                return Err(MiddleEndError::DuplicateTypeDeclaration(typedef_name));
-            }
-        }
         match self.scope_stack.last_mut() {
             None => Err(MiddleEndError::ScopeError),
-            Some(scope) => scope.add_typedef(typedef_name, type_info),
+            // it's an error to redeclare the same typedef name with a different type in the same
+            // scope
+            Some(scope) => match scope.resolve_identifier_to_type(&typedef_name) {
+                Some(t) if t != type_info => {
+                    Err(MiddleEndError::DuplicateTypeDeclaration(typedef_name))
+                }
+                _ => scope.add_typedef(typedef_name, type_info),
+            },
         }
     }
 
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index ece836d..5b25c6f 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -57,11 +57,22 @@ pub fn get_type_info(
                     Err(e) => return Err(e),
                 }
             }
+            // another declarator of a declaration that defines the struct
+            AstStructType::Definition(Some(Identifier(struct_name)), _)
+                if is_duplicate_specifier =>
+            {
+                IrType::Struct(context.resolve_struct_tag_to_struct_id(struct_name)?)
+            }
             AstStructType::Definition(struct_name, members) => {
                 let mut struct_type = match struct_name {
                     Some(Identifier(name)) => StructType::named(name.to_owned()),
                     None => StructType::unnamed(),
                 };
+                // the tag is in scope in its own definition, so that members can point to it
+                let declared_struct_id = match struct_name {
+                    Some(Identifier(name)) => Some(context.declare_struct_tag(name, prog)?),
+                    None => None,
+                };
                 for member in members {
                     for decl in &member.1 {
                         let (member_type_info, member_name, _params) = match get_type_info(
@@ -84,11 +95,15 @@ pub fn get_type_info(
                         )?;
                     }
                 }
-                let struct_type_id = prog.add_struct_type(struct_type)?;
-                if let Some(Identifier(name)) = struct_name {
-                    context.add_struct_tag(name.to_owned(), struct_type_id.to_owned())?;
+                match declared_struct_id {
+                    Some(struct_type_id) => {
+                        prog.program_metadata
+                            .structs
+                            .insert(struct_type_id.to_owned(), struct_type);
+                        IrType::Struct(struct_type_id)
+                    }
+                    None => IrType::Struct(prog.add_struct_type(struct_type)?),
                 }
-                IrType::Struct(struct_type_id)
             }
         },
         TypeSpecifier::Union(union_type) => match union_type {
@@ -105,11 +120,20 @@ pub fn get_type_info(
                     Err(e) => return Err(e),
                 }
             }
+            // another declarator of a declaration that defines the union
+            AstUnionType::Definition(Some(Identifier(union_name)), _) if is_duplicate_specifier => {
+                IrType::Union(context.resolve_union_tag_to_union_id(union_name)?)
+            }
             AstUnionType::Definition(union_name, members) => {
                 let mut union_type = match union_name {
                     Some(Identifier(name)) => UnionType::named(name.to_owned()),
                     None => UnionType::unnamed(),
                 };
+                // the tag is in scope in its own definition, so that members can point to it
+                let declared_union_id = match union_name {
+                    Some(Identifier(name)) => Some(context.declare_union_tag(name, prog)?),
+                    None => None,
+                };
                 for member in members {
                     for decl in &member.1 {
                         let (member_type_info, member_name, _params) = match get_type_info(
@@ -132,11 +156,15 @@ pub fn get_type_info(
                         )?;
                     }
                 }
-                let union_type_id = prog.add_union_type(union_type)?;
-                if let Some(Identifier(name)) = union_name {
-                    context.add_union_tag(name.to_owned(), union_type_id.to_owned())?;
+                match declared_union_id {
+                    Some(union_type_id) => {
+                        prog.program_metadata
+                            .unions
+                            .insert(union_type_id.to_owned(), union_type);
+                        IrType::Union(union_type_id)
+                    }
+                    None => IrType::Union(prog.add_union_type(union_type)?),
                 }
-                IrType::Union(union_type_id)
             }
         },
         TypeSpecifier::Enum(enum_type) => {
diff --git a/src/middle_end/ir.rs b/src/middle_end/ir.rs
index ac8c163..6dd022c 100644
--- a/src/middle_end/ir.rs
+++ b/src/middle_end/ir.rs
@@ -206,7 +206,8 @@ impl ProgramMetadata {
     pub fn add_struct_type(&mut self, struct_type: StructType) -> Result<StructId, MiddleEndError> {
         // check if the same struct type has already been stored in program
         for (existing_struct_id, existing_struct_type) in &self.structs {
-            if existing_struct_type == &struct_type {
+            // a struct with no members is not yet defined, so it isn't the same type
+            if existing_struct_type == &struct_type && !struct_type.member_types.is_empty() {
                 return Ok(existing_struct_id.to_owned());
             }
         }
@@ -225,7 +226,8 @@ impl ProgramMetadata {
     pub fn add_union_type(&mut self, union_type: UnionType) -> Result<UnionId, MiddleEndError> {
         // check if the same union type has already been stored in program
         for (existing_union_id, existing_union_type) in &self.unions {
-            if existing_union_type == &union_type {
+            // a union with no members is not yet defined, so it isn't the same type
+            if existing_union_type == &union_type && !union_type.member_types.is_empty() {
                 return Ok(existing_union_id.to_owned());
             }
         }
-- 
2.43.0


From 276fee2ac9aaa232109b3f192170d29b00d05ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 23/90] fix: recognise typedef names of one letter

---
 src/front_end/lexer.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 687f9a2..0a2f50e 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -556,14 +556,9 @@ impl Fsm {
                     token: None,
                 }),
                 // identifiers only start with letters or underscore, not number
-                c if c.is_ascii_alphabetic() => Some(Fsm {
-                    state: State::Identifier,
-                    token: Some(Token::Identifier(c.to_string())),
-                }),
-                '_' => Some(Fsm {
-                    state: State::Identifier,
-                    token: Some(Token::Identifier("_".to_owned())),
-                }),
+                c if c.is_ascii_alphabetic() || c == '_' => {
+                    Some(lex_identifier(c.to_string(), typedef_names))
+                }
                 '0' => Some(Fsm {
                     state: State::Oct1,
                     token: Some(Token::OctalConstant("0".to_owned())),
-- 
2.43.0


From 553d22fd51c7f8be3e955e0d47bbce3cdd92e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:43 +0000
Subject: [PATCH 24/90] fix: the value of an assignment through a pointer is
 the stored value

---
 src/middle_end/ast_to_ir.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index c1a826c..ed16bcc 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -2003,7 +2003,12 @@ pub fn convert_expression_to_ir(
 
             if src_var_type != dest_var_type {
                 let (mut convert_instrs, converted_var) =
-                    convert_type_for_assignment(src_var, src_var_type, dest_var_type, prog)?;
+                    convert_type_for_assignment(
+                        src_var,
+                        src_var_type,
+                        dest_var_type.to_owned(),
+                        prog,
+                    )?;
                 instrs.append(&mut convert_instrs);
                 src_var = converted_var;
                 //todo other options of possible type combinations
@@ -2018,11 +2023,21 @@ pub fn convert_expression_to_ir(
             // either store to the memory address given by the pointer dest,
             // or store into the local var dest
             if is_store_to_address {
+                // the value of the assignment is the value that is stored, which is kept in a
+                // variable of its own in case what it was read from changes afterwards
+                let value = prog.new_var(ValueType::RValue);
+                prog.add_var_type(value.to_owned(), dest_var_type)?;
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    value.to_owned(),
+                    src_var,
+                ));
                 instrs.push(Instruction::StoreToAddress(
                     prog.new_instr_id(),
                     dest.to_owned(),
-                    src_var,
+                    Src::Var(value.to_owned()),
                 ));
+                return Ok((instrs, Src::Var(value)));
             } else {
                 instrs.push(Instruction::SimpleAssignment(
                     prog.new_instr_id(),
-- 
2.43.0


From a05804446733d8e8618e33f8fcfab7d33b24994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 25/90] fix: evaluate the destination of a compound assignment
 once, and implement the comma operator

---
 src/front_end/ast.rs                |  7 +++++
 src/front_end/c_parser.lalrpop      | 20 ++++++------
 src/middle_end/ast_to_ir.rs         | 47 +++++++++++++++++++++++++++--
 src/middle_end/compile_time_eval.rs |  3 +-
 4 files changed, 64 insertions(+), 13 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index f7f7fb4..88f2ebb 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -247,6 +247,7 @@ pub enum Expression {
     BinaryOp(BinaryOperator, Box<Expression>, Box<Expression>),
     Ternary(Box<Expression>, Box<Expression>, Box<Expression>),
     Assignment(Box<Expression>, Box<Expression>),
+    CompoundAssignment(BinaryOperator, Box<Expression>, Box<Expression>),
     Cast(TypeName, Box<Expression>),
     ExpressionList(Box<Expression>, Box<Expression>),
 }
@@ -302,6 +303,12 @@ impl AstNode for Expression {
             Expression::Assignment(l, r) => {
                 format!("{} = {}", l.reconstruct_source(), r.reconstruct_source())
             }
+            Expression::CompoundAssignment(op, l, r) => format!(
+                "{} {}= {}",
+                l.reconstruct_source(),
+                op.reconstruct_source(),
+                r.reconstruct_source()
+            ),
             Expression::Cast(t, e) => {
                 format!("({}) {}", t.reconstruct_source(), e.reconstruct_source())
             }
diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index b679a5a..8d1d198 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -370,25 +370,25 @@ AssignmentExpression: ast::Expression = {
   <dest:ConditionalExpression> "=" <src:AssignmentExpression>
     => ast::Expression::Assignment(Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "*=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Mult, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Mult, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "/=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Div, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Div, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "%=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Mod, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Mod, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "+=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Add, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Add, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "-=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Sub, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Sub, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "<<=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::LeftShift, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::LeftShift, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> ">>=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::RightShift, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::RightShift, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "&=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseAnd, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::BitwiseAnd, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "^=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseXor, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::BitwiseXor, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "|=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseOr, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::BitwiseOr, Box::new(dest), Box::new(src)),
 }
 
 ConditionalExpression: ast::Expression = {
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index ed16bcc..48aeba6 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -2047,6 +2047,44 @@ pub fn convert_expression_to_ir(
             }
             Ok((instrs, Src::Var(dest)))
         }
+        Expression::CompoundAssignment(op, dest_expr, src_expr) => {
+            // dest op= src is dest = dest op src, but dest is only evaluated once
+            context.directly_on_lhs_of_assignment = true;
+            let (mut dest_instrs, dest_var) =
+                convert_expression_to_ir((*dest_expr).to_owned(), prog, context)?;
+            context.directly_on_lhs_of_assignment = false;
+            let ptr = match dest_var {
+                Src::StoreAddressVar(ptr) => ptr,
+                // a plain variable has nothing to evaluate
+                _ => {
+                    let value = Expression::BinaryOp(op, dest_expr.to_owned(), src_expr);
+                    return convert_expression_to_ir(
+                        Expression::Assignment(dest_expr, Box::new(value)),
+                        prog,
+                        context,
+                    );
+                }
+            };
+            instrs.append(&mut dest_instrs);
+            // name the address of dest, with a name that isn't an identifier in the source
+            let ptr_name = "compound assignment".to_owned();
+            let ptr_type = prog.get_var_type(&ptr)?;
+            context.push_scope();
+            context.add_variable_to_scope(ptr_name.to_owned(), ptr, ptr_type)?;
+            let dest_expr = Box::new(Expression::UnaryOp(
+                UnaryOperator::Dereference,
+                Box::new(Expression::Identifier(Identifier(ptr_name))),
+            ));
+            let value = Expression::BinaryOp(op, dest_expr.to_owned(), src_expr);
+            let (mut assignment_instrs, value_var) = convert_expression_to_ir(
+                Expression::Assignment(dest_expr, Box::new(value)),
+                prog,
+                context,
+            )?;
+            instrs.append(&mut assignment_instrs);
+            context.pop_scope();
+            Ok((instrs, value_var))
+        }
         Expression::Cast(cast_type_decl, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
             instrs.append(&mut expr_instrs);
@@ -2063,8 +2101,13 @@ pub fn convert_expression_to_ir(
             instrs.append(&mut cast_instrs);
             Ok((instrs, dest))
         }
-        Expression::ExpressionList(_, _) => {
-            todo!("expression lists")
+        Expression::ExpressionList(left, right) => {
+            // the value of the left expression is discarded
+            let (mut left_instrs, _) = convert_expression_to_ir(*left, prog, context)?;
+            instrs.append(&mut left_instrs);
+            let (mut right_instrs, right_var) = convert_expression_to_ir(*right, prog, context)?;
+            instrs.append(&mut right_instrs);
+            Ok((instrs, right_var))
         }
     }
 }
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 41dcc1f..4ff793c 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -278,6 +278,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
         | Expression::PostfixDecrement(_)
         | Expression::PrefixIncrement(_)
         | Expression::PrefixDecrement(_)
-        | Expression::Assignment(_, _) => Err(MiddleEndError::InvalidConstantExpression),
+        | Expression::Assignment(_, _)
+        | Expression::CompoundAssignment(_, _, _) => Err(MiddleEndError::InvalidConstantExpression),
     }
 }
-- 
2.43.0


From 1de6e6143adce5d3ee912d228e9d0e9765bf9424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 26/90] fix: accept storing through the pointer that a call or
 an addition yields

---
 src/middle_end/instructions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index bbd209c..c9d1dc4 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -76,7 +76,9 @@ impl Src {
 
     pub fn get_value_type(&self) -> ValueType {
         match self {
-            Src::Var(var) | Src::StoreAddressVar(var) => var.get_value_type(),
+            Src::Var(var) => var.get_value_type(),
+            // what a pointer points to can be stored to, wherever the pointer came from
+            Src::StoreAddressVar(_) => ValueType::LValue,
             Src::Constant(_) => ValueType::RValue,
             Src::Fun(_) => ValueType::RValue,
         }
-- 
2.43.0


From 1d484009ed18a40eb186648aebd4caeac19066aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:05 +0000
Subject: [PATCH 27/90] fix: keep the arguments of a tail call clear of the new
 stack frame

---
 src/back_end/stack_frame_operations.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/back_end/stack_frame_operations.rs b/src/back_end/stack_frame_operations.rs
index d5b2e1b..f2d12be 100644
--- a/src/back_end/stack_frame_operations.rs
+++ b/src/back_end/stack_frame_operations.rs
@@ -385,10 +385,21 @@ pub fn overwrite_current_stack_frame_with_new_stack_frame(
     // before we copy them to their new param position
     // use temp_fp to hold the stack ptr value, so we can offset from it while
     // constructing the new stack frame
-    // todo make sure this is definitely after the space for all the new params
     set_temp_frame_ptr_to_stack_ptr(wasm_instrs);
 
-    let mut temp_stack_ptr_offset = 0;
+    // make sure the temp space is definitely after the space for all the new params, even if
+    // the new stack frame is bigger than the current one
+    let mut temp_stack_ptr_offset = PTR_SIZE as u64
+        + return_type
+            .get_byte_size(prog_metadata)
+            .get_compile_time_value()
+            .unwrap();
+    for param_type in param_types {
+        temp_stack_ptr_offset += param_type
+            .get_byte_size(prog_metadata)
+            .get_compile_time_value()
+            .unwrap();
+    }
     let mut param_var_stack_ptr_offsets = HashMap::new();
     for param_index in 0..params.len() {
         let param = params.get(param_index).unwrap();
-- 
2.43.0


From cc97962574e51291458d9a9f5655ba18d43b64c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:05 +0000
Subject: [PATCH 28/90] fix: replace every tail call of a function, and only
 when its stack frame can't be referred to

---
 .../middle_end_optimiser/tail_call_optimise.rs    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
index 5b2106c..135e0d0 100644
--- a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
+++ b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
@@ -8,6 +8,18 @@ pub fn tail_call_optimise(
     param_var_mappings: &[VarId],
     prog_metadata: &mut ProgramMetadata,
 ) {
+    // the called function may be given a pointer into this function's stack frame, so the stack
+    // frame can't be reused if there could be one
+    let stack_frame_address_is_taken = fun_instrs.iter().any(|instr| {
+        matches!(
+            instr,
+            Instruction::AddressOf(..) | Instruction::AllocateVariable(..)
+        )
+    });
+    if stack_frame_address_is_taken {
+        return;
+    }
+
     // find any call instructions that are the last instruction of a function
 
     // instr index, call instr parameters
@@ -97,7 +109,8 @@ pub fn tail_call_optimise(
         }
     }
 
-    for (replace_index, remove_count, new_instrs) in replace_instrs {
+    // replace from the end, so that the indices of the earlier replacements stay correct
+    for (replace_index, remove_count, new_instrs) in replace_instrs.into_iter().rev() {
         for _ in 0..remove_count {
             fun_instrs.remove(replace_index);
         }
-- 
2.43.0


From b33f51f804bfafd5b4ad1cf8b503059c056cbb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:16 +0000
Subject: [PATCH 29/90] fix: sizeof an array is its size in bytes, and sizeof
 doesn't evaluate its operand

---
 src/middle_end/ast_to_ir.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 48aeba6..82c605b 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1377,12 +1377,18 @@ pub fn convert_expression_to_ir(
             }
         }
         Expression::SizeOfExpr(e) => {
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*e, prog, context)?;
-            instrs.append(&mut expr_instrs);
+            // only the type of the expression is needed, the expression isn't evaluated
+            let string_literal_byte_size = match &*e {
+                Expression::StringLiteral(s) => Some(s.len() as u64 + 1),
+                _ => None,
+            };
+            let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
 
-            let type_size = if expr_var_type.is_array_type() {
-                expr_var_type.get_array_size()?
+            let type_size = if let Some(byte_size) = string_literal_byte_size {
+                TypeSize::CompileTime(byte_size)
+            } else if expr_var_type.is_array_type() {
+                expr_var_type.get_array_byte_size(&prog.program_metadata)?
             } else {
                 expr_var_type.get_byte_size(&prog.program_metadata)
             };
@@ -1396,7 +1402,8 @@ pub fn convert_expression_to_ir(
                 }
             };
             let dest = prog.new_var(ValueType::RValue);
-            prog.add_var_type(dest.to_owned(), IrType::I32)?;
+            // the result has type size_t
+            prog.add_var_type(dest.to_owned(), IrType::U32)?;
             instrs.push(Instruction::SimpleAssignment(
                 prog.new_instr_id(),
                 dest.to_owned(),
@@ -1410,7 +1417,7 @@ pub fn convert_expression_to_ir(
                 Some(x) => x,
             };
             let type_size = if type_info.is_array_type() {
-                type_info.get_array_size()?
+                type_info.get_array_byte_size(&prog.program_metadata)?
             } else {
                 type_info.get_byte_size(&prog.program_metadata)
             };
@@ -1424,7 +1431,8 @@ pub fn convert_expression_to_ir(
                 }
             };
             let dest = prog.new_var(ValueType::RValue);
-            prog.add_var_type(dest.to_owned(), IrType::I32)?;
+            // the result has type size_t
+            prog.add_var_type(dest.to_owned(), IrType::U32)?;
             instrs.push(Instruction::SimpleAssignment(
                 prog.new_instr_id(),
                 dest.to_owned(),
-- 
2.43.0


From 04519598c1958515264cffffa740b3e478adcc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 30/90] fix: store arrays in place inside arrays and structs,
 and zero the members without an initialiser

---
 src/middle_end/aggregate_type_initialisers.rs |  52 ++++++---
 src/middle_end/ast_to_ir.rs                   | 106 ++++++++----------
 src/middle_end/ir_types.rs                    |  25 +++--
 3 files changed, 104 insertions(+), 79 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index 9719ab8..e6512f8 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -11,7 +11,7 @@ use crate::middle_end::type_conversions::convert_type_for_assignment;
 pub fn array_initialiser(
     dest: VarId,
     dest_type_info: IrType,
-    initialiser_list: Vec<Initialiser>,
+    mut initialiser_list: Vec<Initialiser>,
     prog: &mut Program,
     context: &mut Context,
 ) -> Result<Vec<Instruction>, MiddleEndError> {
@@ -19,7 +19,9 @@ pub fn array_initialiser(
 
     let array_member_type = dest_type_info.unwrap_array_type()?;
     // sizes of array members must be known at compile time
-    let array_member_byte_size = match array_member_type.get_byte_size(&prog.program_metadata) {
+    let array_member_byte_size = match array_member_type
+        .get_object_byte_size(&prog.program_metadata)?
+    {
         TypeSize::CompileTime(size) => size,
         TypeSize::Runtime(_) => return Err(MiddleEndError::ArrayMemberSizeNotKnownAtCompileTime),
     };
@@ -42,12 +44,22 @@ pub fn array_initialiser(
         TypeSize::CompileTime(size) => size,
         TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedArraySize),
     };
-    // check that the array length matches the number of initialisers
-    if array_size as usize != initialiser_list.len() {
+    // check that there aren't more initialisers than array members
+    if initialiser_list.len() > array_size as usize {
         return Err(MiddleEndError::MismatchedArrayInitialiserLength);
     }
+    // the remaining members are initialised to zero
+    while initialiser_list.len() < array_size as usize {
+        initialiser_list.push(zero_initialiser(&array_member_type));
+    }
 
-    for array_member_initialiser in initialiser_list {
+    for mut array_member_initialiser in initialiser_list {
+        // check for case of initialising a char array with a string literal
+        if array_member_type.is_array_type() {
+            if let Initialiser::Expr(Expression::StringLiteral(s)) = array_member_initialiser {
+                array_member_initialiser = convert_string_literal_to_init_list_of_chars_ast(s);
+            }
+        }
         match array_member_initialiser {
             Initialiser::Expr(e) => {
                 if array_member_type.is_aggregate_type() {
@@ -126,10 +138,11 @@ pub fn array_initialiser(
     Ok(instrs)
 }
 
+/// dest is a pointer to the struct to initialise
 pub fn struct_initialiser(
     dest: VarId,
     dest_type_info: IrType,
-    initialiser_list: Vec<Initialiser>,
+    mut initialiser_list: Vec<Initialiser>,
     prog: &mut Program,
     context: &mut Context,
 ) -> Result<Vec<Instruction>, MiddleEndError> {
@@ -137,10 +150,15 @@ pub fn struct_initialiser(
 
     let struct_type = dest_type_info.unwrap_struct_type(prog)?;
 
-    // check that the number of initialisers matches the number of struct members
-    if struct_type.member_count() != initialiser_list.len() {
+    // check that there aren't more initialisers than struct members
+    if initialiser_list.len() > struct_type.member_count() {
         return Err(MiddleEndError::MismatchedArrayInitialiserLength);
     }
+    // the remaining members are initialised to zero
+    while initialiser_list.len() < struct_type.member_count() {
+        let member_type = struct_type.get_member_type_by_index(initialiser_list.len())?;
+        initialiser_list.push(zero_initialiser(&member_type));
+    }
 
     for member_index in 0..struct_type.member_count() {
         let mut member_initialiser = initialiser_list.get(member_index).unwrap().to_owned();
@@ -153,16 +171,11 @@ pub fn struct_initialiser(
             member_ptr_var.to_owned(),
             IrType::PointerTo(Box::new(member_type.to_owned())),
         )?;
-        // member_ptr_var = &dest + byte_offset
-        instrs.push(Instruction::AddressOf(
-            prog.new_instr_id(),
-            member_ptr_var.to_owned(),
-            Src::Var(dest.to_owned()),
-        ));
+        // member_ptr_var = dest + byte_offset
         instrs.push(Instruction::Add(
             prog.new_instr_id(),
             member_ptr_var.to_owned(),
-            Src::Var(member_ptr_var.to_owned()),
+            Src::Var(dest.to_owned()),
             Src::Constant(Constant::Int(member_byte_offset as i128)),
         ));
 
@@ -261,6 +274,15 @@ pub fn struct_initialiser(
     Ok(instrs)
 }
 
+/// the initialiser of a member that has no initialiser of its own
+fn zero_initialiser(member_type: &IrType) -> Initialiser {
+    if member_type.is_aggregate_type() {
+        Initialiser::List(Vec::new())
+    } else {
+        Initialiser::Expr(Expression::Constant(AstConstant::Int(0)))
+    }
+}
+
 /// convert a string literal to an array of chars, for array initialiser
 pub fn convert_string_literal_to_init_list_of_chars_ast(s: String) -> Initialiser {
     let mut char_initialisers = Vec::new();
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 82c605b..48000c7 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -590,29 +590,24 @@ fn convert_statement_to_ir(
                                                 dest_type.to_owned(),
                                             )?;
 
-                                            let byte_size = match dest_type
-                                                .get_byte_size(&prog.program_metadata)
-                                            {
-                                                TypeSize::CompileTime(size) => {
-                                                    Src::Constant(Constant::Int(size as i128))
-                                                }
-                                                TypeSize::Runtime(size_expr) => {
-                                                    let (mut size_expr_instrs, size_var) =
-                                                        convert_expression_to_ir(
-                                                            size_expr, prog, context,
-                                                        )?;
-                                                    instrs.append(&mut size_expr_instrs);
-                                                    size_var
-                                                }
-                                            };
-                                            instrs.push(Instruction::AllocateVariable(
+                                            instrs.push(Instruction::DeclareVariable(
                                                 prog.new_instr_id(),
                                                 dest.to_owned(),
-                                                byte_size,
                                             ));
 
+                                            // dest_ptr = &dest
+                                            let dest_ptr = prog.new_var(ValueType::LValue);
+                                            prog.add_var_type(
+                                                dest_ptr.to_owned(),
+                                                IrType::PointerTo(Box::new(dest_type.to_owned())),
+                                            )?;
+                                            instrs.push(Instruction::AddressOf(
+                                                prog.new_instr_id(),
+                                                dest_ptr.to_owned(),
+                                                Src::Var(dest),
+                                            ));
                                             let mut init_instrs = struct_initialiser(
-                                                dest,
+                                                dest_ptr,
                                                 dest_type,
                                                 initialisers,
                                                 prog,
@@ -873,6 +868,24 @@ fn convert_increment_or_decrement_to_ir(
     ))
 }
 
+/// load the object that ptr points to. An array isn't loaded, because it is represented by a
+/// pointer to its first member
+fn load_object_from_address(
+    ptr: VarId,
+    object_type: IrType,
+    instrs: &mut Vec<Instruction>,
+    prog: &mut Program,
+) -> Result<VarId, MiddleEndError> {
+    let dest = prog.new_var(ValueType::LValue);
+    prog.add_var_type(dest.to_owned(), object_type.to_owned())?;
+    instrs.push(if object_type.is_array_type() {
+        Instruction::SimpleAssignment(prog.new_instr_id(), dest.to_owned(), Src::Var(ptr))
+    } else {
+        Instruction::LoadFromAddress(prog.new_instr_id(), dest.to_owned(), Src::Var(ptr))
+    });
+    Ok(dest)
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
@@ -952,13 +965,7 @@ pub fn convert_expression_to_ir(
                 Ok((instrs, Src::StoreAddressVar(ptr)))
             } else {
                 // read from array index
-                let dest = prog.new_var(ValueType::LValue);
-                prog.add_var_type(dest.to_owned(), arr_inner_type)?;
-                instrs.push(Instruction::LoadFromAddress(
-                    prog.new_instr_id(),
-                    dest.to_owned(),
-                    Src::Var(ptr),
-                ));
+                let dest = load_object_from_address(ptr, arr_inner_type, &mut instrs, prog)?;
                 Ok((instrs, Src::Var(dest)))
             }
         }
@@ -1059,14 +1066,7 @@ pub fn convert_expression_to_ir(
                         Ok((instrs, Src::StoreAddressVar(ptr)))
                     } else {
                         // load from struct member
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(ptr),
-                        ));
+                        let dest = load_object_from_address(ptr, member_type, &mut instrs, prog)?;
                         Ok((instrs, Src::Var(dest)))
                     }
                 }
@@ -1090,14 +1090,7 @@ pub fn convert_expression_to_ir(
                         Ok((instrs, Src::StoreAddressVar(ptr)))
                     } else {
                         // load from union
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(ptr),
-                        ));
+                        let dest = load_object_from_address(ptr, member_type, &mut instrs, prog)?;
                         Ok((instrs, Src::Var(dest)))
                     }
                 }
@@ -1135,14 +1128,7 @@ pub fn convert_expression_to_ir(
                         Ok((instrs, Src::StoreAddressVar(ptr)))
                     } else {
                         // load from struct member
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(ptr),
-                        ));
+                        let dest = load_object_from_address(ptr, member_type, &mut instrs, prog)?;
                         Ok((instrs, Src::Var(dest)))
                     }
                 }
@@ -1166,14 +1152,7 @@ pub fn convert_expression_to_ir(
                         Ok((instrs, Src::StoreAddressVar(ptr)))
                     } else {
                         // load from union
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(ptr),
-                        ));
+                        let dest = load_object_from_address(ptr, member_type, &mut instrs, prog)?;
                         Ok((instrs, Src::Var(dest)))
                     }
                 }
@@ -1232,6 +1211,19 @@ pub fn convert_expression_to_ir(
                     _ => Err(MiddleEndError::DereferenceNonPointerType(expr_var_type)),
                 }
             } else {
+                // dereferencing a pointer to an array gives the array
+                if let (IrType::PointerTo(inner_type), Src::Var(ptr)) = (&expr_var_type, &expr_var)
+                {
+                    if inner_type.is_array_type() {
+                        let dest = load_object_from_address(
+                            ptr.to_owned(),
+                            (**inner_type).to_owned(),
+                            &mut instrs,
+                            prog,
+                        )?;
+                        return Ok((instrs, Src::Var(dest)));
+                    }
+                }
                 // dereference load from memory address
                 let dest = prog.new_var(ValueType::LValue);
                 instrs.push(Instruction::LoadFromAddress(
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index 996c9cd..250cc06 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -102,15 +102,24 @@ impl IrType {
         prog: &ProgramMetadata,
     ) -> Result<TypeSize, MiddleEndError> {
         match self {
-            IrType::PointerTo(inner_type) => Ok(inner_type.get_byte_size(prog)),
+            IrType::PointerTo(inner_type) => inner_type.get_object_byte_size(prog),
             t => Err(MiddleEndError::DereferenceNonPointerType(t.to_owned())),
         }
     }
 
+    /// the size of an object of this type in memory. An array variable is represented by a
+    /// pointer, but an array inside another array, struct or union is stored in place
+    pub fn get_object_byte_size(&self, prog: &ProgramMetadata) -> Result<TypeSize, MiddleEndError> {
+        match self {
+            IrType::ArrayOf(_, _) => self.get_array_byte_size(prog),
+            t => Ok(t.get_byte_size(prog)),
+        }
+    }
+
     pub fn get_array_byte_size(&self, prog: &ProgramMetadata) -> Result<TypeSize, MiddleEndError> {
         match self {
             IrType::ArrayOf(inner_type, count) => match count {
-                Some(TypeSize::CompileTime(count)) => match inner_type.get_byte_size(prog) {
+                Some(TypeSize::CompileTime(count)) => match inner_type.get_object_byte_size(prog)? {
                     TypeSize::CompileTime(t_size) => Ok(TypeSize::CompileTime(t_size * count)),
                     TypeSize::Runtime(t_size_expr) => Ok(TypeSize::Runtime(Expression::BinaryOp(
                         BinaryOperator::Mult,
@@ -118,7 +127,7 @@ impl IrType {
                         Box::new(Expression::Constant(Constant::Int(*count as u128))),
                     ))),
                 },
-                Some(TypeSize::Runtime(count_expr)) => match inner_type.get_byte_size(prog) {
+                Some(TypeSize::Runtime(count_expr)) => match inner_type.get_object_byte_size(prog)? {
                     TypeSize::CompileTime(t_size) => Ok(TypeSize::Runtime(Expression::BinaryOp(
                         BinaryOperator::Mult,
                         Box::new(count_expr.to_owned()),
@@ -341,8 +350,10 @@ impl IrType {
                 if size.is_none() {
                     size = Some(TypeSize::CompileTime(initialisers.len() as u64));
                 }
-                let resolved_member_type =
-                    t.resolve_array_size_from_initialiser(initialisers.first().unwrap())?;
+                let resolved_member_type = match initialisers.first() {
+                    Some(initialiser) => t.resolve_array_size_from_initialiser(initialiser)?,
+                    None => *t,
+                };
                 Ok(IrType::ArrayOf(Box::new(resolved_member_type), size))
             }
             (t, _) => Ok(t),
@@ -458,7 +469,7 @@ impl StructType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateStructMember);
         }
-        let byte_size = match member_type.get_byte_size(prog) {
+        let byte_size = match member_type.get_object_byte_size(prog)? {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedStructMemberSize),
         };
@@ -578,7 +589,7 @@ impl UnionType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateUnionMember);
         }
-        let byte_size = match member_type.get_byte_size(prog) {
+        let byte_size = match member_type.get_object_byte_size(prog)? {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedUnionMemberSize),
         };
-- 
2.43.0


From da08cf53e13f144568525b3693c5b96aedad6329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:21 +0000
Subject: [PATCH 31/90] fix: give static local variables static storage

---
 src/middle_end/ast_to_ir.rs | 10 +++++++++-
 src/middle_end/context.rs   |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 48000c7..d6001d1 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -3,7 +3,8 @@ use log::trace;
 use crate::front_end::ast;
 use crate::front_end::ast::{
     BinaryOperator, DeclaratorInitialiser, Expression, ExpressionOrDeclaration, Identifier,
-    Initialiser, LabelledStatement, Program as AstProgram, Statement, TypeSpecifier, UnaryOperator,
+    Initialiser, LabelledStatement, Program as AstProgram, Statement, StorageClassSpecifier,
+    TypeSpecifier, UnaryOperator,
 };
 use crate::middle_end::aggregate_type_initialisers::{
     array_initialiser, convert_string_literal_to_init_list_of_chars_ast, struct_initialiser,
@@ -628,6 +629,13 @@ fn convert_statement_to_ir(
                 }
                 is_initial_declarator = false;
             }
+            // a static local variable is initialised once, with the global variables, and keeps
+            // its value
+            if sq.storage_class_specifier == Some(StorageClassSpecifier::Static)
+                && !context.is_in_global_scope()
+            {
+                prog.program_instructions.global_instrs.append(&mut instrs);
+            }
         }
         Statement::EmptyDeclaration(sq) => {
             match get_type_info(&sq, None, false, prog, context)? {
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index b69166b..29d96f8 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -166,6 +166,10 @@ impl Context {
         self.scope_stack.pop();
     }
 
+    pub fn is_in_global_scope(&self) -> bool {
+        self.scope_stack.len() == 1
+    }
+
     pub fn add_variable_to_scope(
         &mut self,
         name: String,
-- 
2.43.0


From 8807ef0eedf33bc5843e11ce9a4ffc40fa007e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:38 +0000
Subject: [PATCH 32/90] fix: accept casts to void

---
 src/middle_end/ast_to_ir.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index d6001d1..19ec47c 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -2102,6 +2102,12 @@ pub fn convert_expression_to_ir(
                     None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                     Some(x) => x,
                 };
+            // a cast to void discards the value
+            if cast_type == IrType::Void {
+                let dest = prog.new_var(ValueType::RValue);
+                prog.add_var_type(dest.to_owned(), IrType::Void)?;
+                return Ok((instrs, Src::Var(dest)));
+            }
             // get conversion instrs into cast type
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
             let (mut cast_instrs, dest) =
-- 
2.43.0


From adddd6a42711b4c474b754fce916bcd0f65380d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:15 +0000
Subject: [PATCH 33/90] fix: evaluate constant expressions like the run-time
 operators, and let a global initialiser branch

---
 src/back_end/target_code_generation.rs        |  7 ++++-
 .../target_code_generation_context.rs         |  4 +--
 src/middle_end/compile_time_eval.rs           | 26 ++++++++++++-------
 src/relooper/relooper.rs                      |  3 +++
 4 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 5555b50..d096912 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -109,7 +109,12 @@ pub fn generate_target_code(
         //     &prog.program_metadata,
         // );
 
-        let mut global_context = FunctionContext::global_context(global_var_addrs.to_owned());
+        let mut global_context = FunctionContext::global_context(
+            global_var_addrs.to_owned(),
+            prog.program_blocks
+                .global_label_variable
+                .expect("global block has a label variable"),
+        );
 
         global_wasm_instrs.append(&mut convert_block_to_wasm(
             global_block,
diff --git a/src/back_end/target_code_generation_context.rs b/src/back_end/target_code_generation_context.rs
index 7966938..d11ea39 100644
--- a/src/back_end/target_code_generation_context.rs
+++ b/src/back_end/target_code_generation_context.rs
@@ -90,11 +90,11 @@ impl FunctionContext {
         }
     }
 
-    pub fn global_context(global_var_addrs: HashMap<VarId, u32>) -> Self {
+    pub fn global_context(global_var_addrs: HashMap<VarId, u32>, label_variable: VarId) -> Self {
         FunctionContext {
             var_fp_offsets: HashMap::new(),
             global_var_addrs,
-            label_variable: VarId::initial_id(), // dummy var, because global instrs don't have any control flow
+            label_variable,
             control_flow_stack: Vec::new(),
         }
     }
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 4ff793c..f014066 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -26,6 +26,14 @@ enum ConstantExpressionType {
     Float(f64),
 }
 
+/// the value of an integer operation, which has none if it's undefined (eg. division by zero)
+fn checked(result: Option<i128>) -> Result<ConstantExpressionType, MiddleEndError> {
+    match result {
+        Some(i) => Ok(ConstantExpressionType::Int(i)),
+        None => Err(MiddleEndError::InvalidConstantExpression),
+    }
+}
+
 fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
     match expr {
         Expression::Identifier(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
@@ -58,10 +66,10 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 UnaryOperator::LogicalNot => match expr_result {
                     ConstantExpressionType::Int(i) => {
-                        Ok(ConstantExpressionType::Int(!(i > 0) as i128))
+                        Ok(ConstantExpressionType::Int((i == 0) as i128))
                     }
                     ConstantExpressionType::Float(f) => {
-                        Ok(ConstantExpressionType::Int(!(f > 0.) as i128))
+                        Ok(ConstantExpressionType::Int((f == 0.) as i128))
                     }
                 },
             }
@@ -74,7 +82,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
             match op {
                 BinaryOperator::Mult => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l * r))
+                        checked(l.checked_mul(r))
                     }
                     (ConstantExpressionType::Float(f), ConstantExpressionType::Int(i))
                     | (ConstantExpressionType::Int(i), ConstantExpressionType::Float(f)) => {
@@ -86,7 +94,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 BinaryOperator::Div => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l / r))
+                        checked(l.checked_div(r))
                     }
                     (ConstantExpressionType::Float(l), ConstantExpressionType::Int(r)) => {
                         Ok(ConstantExpressionType::Float(l / r as f64))
@@ -100,13 +108,13 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 BinaryOperator::Mod => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l % r))
+                        checked(l.checked_rem(r))
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
                 BinaryOperator::Add => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l + r))
+                        checked(l.checked_add(r))
                     }
                     (ConstantExpressionType::Float(f), ConstantExpressionType::Int(i))
                     | (ConstantExpressionType::Int(i), ConstantExpressionType::Float(f)) => {
@@ -118,7 +126,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 BinaryOperator::Sub => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l - r))
+                        checked(l.checked_sub(r))
                     }
                     (ConstantExpressionType::Float(l), ConstantExpressionType::Int(r)) => {
                         Ok(ConstantExpressionType::Float(l - r as f64))
@@ -132,13 +140,13 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 BinaryOperator::LeftShift => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l << r))
+                        checked(u32::try_from(r).ok().and_then(|r| l.checked_shl(r)))
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
                 BinaryOperator::RightShift => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l >> r))
+                        checked(u32::try_from(r).ok().and_then(|r| l.checked_shr(r)))
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index f78de64..0532a59 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -47,6 +47,7 @@ pub struct ReloopedFunction {
 pub struct ProgramBlocks {
     pub functions: HashMap<FunId, ReloopedFunction>,
     pub global_instrs: Option<Block>,
+    pub global_label_variable: Option<VarId>,
 }
 
 impl ProgramBlocks {
@@ -54,6 +55,7 @@ impl ProgramBlocks {
         ProgramBlocks {
             functions: HashMap::new(),
             global_instrs: None,
+            global_label_variable: None,
         }
     }
 }
@@ -141,6 +143,7 @@ pub fn reloop(mut prog: Program) -> ReloopedProgram {
                 info!("Created block for global instructions:\n{}", block);
                 assert_no_branch_instrs_left(&block);
                 program_blocks.global_instrs = Some(block);
+                program_blocks.global_label_variable = Some(label_var);
             }
             None => error!("No block created for global instructions, even though non-empty"),
         }
-- 
2.43.0


From a5ee4e2bce5643038bc36154e46226eedbc0f543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 34/90] fix: accept enumeration constants in the value of an
 enumeration constant

---
 src/middle_end/compile_time_eval.rs | 36 +++++++++++++++++++----------
 src/middle_end/get_ast_type_info.rs |  7 ++++--
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index f014066..9be5912 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -1,12 +1,16 @@
-use crate::front_end::ast::{BinaryOperator, Expression};
+use crate::front_end::ast::{BinaryOperator, Expression, Identifier};
 use crate::front_end::ast::{Constant as AstConstant, UnaryOperator};
+use crate::middle_end::context::{Context, IdentifierResolveResult};
 use crate::middle_end::instructions::Constant as IrConstant;
 use crate::middle_end::middle_end_error::MiddleEndError;
 
 /// constant expression used for array bounds, explicit enum values,
 /// values of case labels. Must evaluate to an integer
-pub fn eval_integral_constant_expression(expr: Expression) -> Result<i128, MiddleEndError> {
-    match eval(expr)? {
+pub fn eval_integral_constant_expression(
+    expr: Expression,
+    context: &Context,
+) -> Result<i128, MiddleEndError> {
+    match eval(expr, context)? {
         ConstantExpressionType::Int(i) => Ok(i),
         _ => Err(MiddleEndError::InvalidConstantExpression),
     }
@@ -14,8 +18,9 @@ pub fn eval_integral_constant_expression(expr: Expression) -> Result<i128, Middl
 
 pub fn eval_initialiser_constant_expression(
     expr: Expression,
+    context: &Context,
 ) -> Result<IrConstant, MiddleEndError> {
-    match eval(expr)? {
+    match eval(expr, context)? {
         ConstantExpressionType::Int(i) => Ok(IrConstant::Int(i)),
         ConstantExpressionType::Float(f) => Ok(IrConstant::Float(f)),
     }
@@ -34,9 +39,16 @@ fn checked(result: Option<i128>) -> Result<ConstantExpressionType, MiddleEndErro
     }
 }
 
-fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
+fn eval(expr: Expression, context: &Context) -> Result<ConstantExpressionType, MiddleEndError> {
     match expr {
-        Expression::Identifier(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
+        Expression::Identifier(Identifier(name)) => {
+            match context.resolve_identifier_to_var_or_const(&name) {
+                Ok(IdentifierResolveResult::EnumConst(value)) => {
+                    Ok(ConstantExpressionType::Int(value as i128))
+                }
+                _ => Err(MiddleEndError::CantEvaluateAtCompileTime),
+            }
+        }
         Expression::Constant(c) => match c {
             AstConstant::Int(i) => Ok(ConstantExpressionType::Int(i as i128)),
             AstConstant::Float(f) => Ok(ConstantExpressionType::Float(f)),
@@ -47,7 +59,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
         Expression::DirectMemberSelection(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::IndirectMemberSelection(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::UnaryOp(op, expr) => {
-            let expr_result = eval(*expr)?;
+            let expr_result = eval(*expr, context)?;
             match op {
                 UnaryOperator::AddressOf => Err(MiddleEndError::CantEvaluateAtCompileTime),
                 UnaryOperator::Dereference => Err(MiddleEndError::CantEvaluateAtCompileTime),
@@ -77,8 +89,8 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
         Expression::SizeOfExpr(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::SizeOfType(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::BinaryOp(op, left, right) => {
-            let left_result = eval(*left)?;
-            let right_result = eval(*right)?;
+            let left_result = eval(*left, context)?;
+            let right_result = eval(*right, context)?;
             match op {
                 BinaryOperator::Mult => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
@@ -267,15 +279,15 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
             }
         }
         Expression::Ternary(cond, true_expr, false_expr) => {
-            let cond_result = eval(*cond)?;
+            let cond_result = eval(*cond, context)?;
             let cond_value = match cond_result {
                 ConstantExpressionType::Int(i) => i != 0,
                 ConstantExpressionType::Float(f) => f != 0.,
             };
             if cond_value {
-                eval(*true_expr)
+                eval(*true_expr, context)
             } else {
-                eval(*false_expr)
+                eval(*false_expr, context)
             }
         }
         Expression::Cast(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 5b25c6f..65093b5 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -195,7 +195,10 @@ pub fn get_type_info(
                                 }
                                 Enumerator::WithValue(Identifier(name), value_expr) => {
                                     let value =
-                                        eval_integral_constant_expression(value_expr.to_owned())?
+                                        eval_integral_constant_expression(
+                                            value_expr.to_owned(),
+                                            context,
+                                        )?
                                             as EnumConstant;
                                     context.add_enum_constant(name.to_owned(), value)?;
                                     // value of next constant without explicit value is one more than
@@ -271,7 +274,7 @@ fn add_type_info_from_declarator(
         Declarator::ArrayDeclarator(d, size_expr) => {
             let size = match size_expr {
                 None => None,
-                Some(size_expr) => match eval_integral_constant_expression(*size_expr.to_owned()) {
+                Some(size_expr) => match eval_integral_constant_expression(*size_expr.to_owned(), context) {
                     Ok(size) => Some(TypeSize::CompileTime(size as u64)),
                     Err(_) => Some(TypeSize::Runtime(*size_expr)),
                 },
-- 
2.43.0


From 25ae9fd994fc55576f02b800525c125f2a47fa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 35/90] fix: values and types of the limits

---
 headers/limits.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/headers/limits.h b/headers/limits.h
index a8ae41d..91f59b1 100644
--- a/headers/limits.h
+++ b/headers/limits.h
@@ -2,26 +2,26 @@
 #define _LIMITS_H
 
 #define CHAR_BIT 8
-#define SCHAR_MIN -128
+#define SCHAR_MIN (-128)
 #define SCHAR_MAX 127
 #define UCHAR_MAX 255
-#define CHAR_MIN -128
+#define CHAR_MIN (-128)
 #define CHAR_MAX 127
 
-#define SHRT_MIN -32768
+#define SHRT_MIN (-32768)
 #define SHRT_MAX 32767
 #define USHRT_MAX 65535
 
-#define INT_MIN -2147483648
+#define INT_MIN (-2147483647 - 1)
 #define INT_MAX 2147483647
-#define UINT_MAX 4294967296
+#define UINT_MAX 4294967295
 
-#define LONG_MIN -9223372036854775808
+#define LONG_MIN (-9223372036854775807 - 1)
 #define LONG_MAX 9223372036854775807
 #define ULONG_MAX 18446744073709551615
 
 // same as long
-#define LLONG_MIN -9223372036854775808
+#define LLONG_MIN (-9223372036854775807 - 1)
 #define LLONG_MAX 9223372036854775807
 #define ULLONG_MAX 18446744073709551615
 
-- 
2.43.0


From 7c45485527bac2f55643a4a93bca308c46ad291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:36 +0000
Subject: [PATCH 36/90] fix: character classes of every unsigned char value, an
 unsigned size_t, and EXIT_FAILURE

---
 headers/ctype.h  | 56 ++++++++++++++++++++++++------------------------
 headers/stddef.h |  2 +-
 headers/stdlib.h |  1 +
 headers/string.h |  2 +-
 4 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/headers/ctype.h b/headers/ctype.h
index 4e5d50e..1027e11 100644
--- a/headers/ctype.h
+++ b/headers/ctype.h
@@ -1,72 +1,72 @@
 #ifndef _CTYPE_H
 #define _CTYPE_H
 
-int isalnum(char c);
-int isalpha(char c);
-int iscntrl(char c);
-int isdigit(char c);
-int isxdigit(char c);
-int isgraph(char c);
-int ispunct(char c);
-int isprint(char c);
-int islower(char c);
-int isupper(char c);
-int isspace(char c);
-char tolower(char c);
-char toupper(char c);
+int isalnum(int c);
+int isalpha(int c);
+int iscntrl(int c);
+int isdigit(int c);
+int isxdigit(int c);
+int isgraph(int c);
+int ispunct(int c);
+int isprint(int c);
+int islower(int c);
+int isupper(int c);
+int isspace(int c);
+int tolower(int c);
+int toupper(int c);
 
-int isalnum(char c) {
+int isalnum(int c) {
     return isalpha(c) || isdigit(c);
 }
 
-int isalpha(char c) {
+int isalpha(int c) {
     return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
 }
 
-int iscntrl(char c) {
+int iscntrl(int c) {
     return (c >= 0 && c <= 31) || c == 127;
 }
 
-int isdigit(char c) {
+int isdigit(int c) {
     return (c >= '0' && c <= '9');
 }
 
-int isxdigit(char c) {
+int isxdigit(int c) {
     return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f');
 }
 
-int isgraph(char c) {
+int isgraph(int c) {
     return isprint(c) && (c != ' ');
 }
 
-int ispunct(char c) {
+int ispunct(int c) {
     return isgraph(c) && !isalnum(c);
 }
 
-int isprint(char c) {
-    return !iscntrl(c);
+int isprint(int c) {
+    return c >= 32 && c < 127;
 }
 
-int islower(char c) {
+int islower(int c) {
     return c >= 'a' && c <= 'z';
 }
 
-int isupper(char c) {
+int isupper(int c) {
     return c >= 'A' && c <= 'Z';
 }
 
-int isspace(char c) {
-    return c == '\t' || c == '\r' || c == '\n' || c == ' ';
+int isspace(int c) {
+    return (c >= '\t' && c <= '\r') || c == ' ';
 }
 
-char tolower(char c) {
+int tolower(int c) {
     if (isupper(c)) {
         return c - 'A' + 'a';
     }
     return c;
 }
 
-char toupper(char c) {
+int toupper(int c) {
     if (islower(c)) {
         return c - 'a' + 'A';
     }
diff --git a/headers/stddef.h b/headers/stddef.h
index bada4d3..ed0c76d 100644
--- a/headers/stddef.h
+++ b/headers/stddef.h
@@ -3,7 +3,7 @@
 
 #define NULL ((void*)0)
 
-typedef int size_t;
+typedef unsigned int size_t;
 typedef int ptrdiff_t;
 typedef int wchar_t;
 
diff --git a/headers/stdlib.h b/headers/stdlib.h
index 8bd35e4..e6185e1 100644
--- a/headers/stdlib.h
+++ b/headers/stdlib.h
@@ -4,6 +4,7 @@
 #define NULL ((void*)0)
 
 #define EXIT_SUCCESS 0
+#define EXIT_FAILURE 1
 
 long strtol(const char *str, char **endptr, int base);
 
diff --git a/headers/string.h b/headers/string.h
index 7bb19d1..c95403d 100644
--- a/headers/string.h
+++ b/headers/string.h
@@ -3,7 +3,7 @@
 
 #define NULL ((void*)0)
 
-typedef int size_t;
+typedef unsigned int size_t;
 
 size_t strlen(const char *s);
 
-- 
2.43.0


From 20b04318be34572947dc0a6480941e4ad9ec0f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:32 +0000
Subject: [PATCH 37/90] fix: string and character constants are bytes, with
 every simple escape sequence

---
 src/back_end/initialise_memory.rs   |  2 +-
 src/front_end/interpret_string.rs   | 33 +++++++++++++++++++----------
 src/front_end/lexer.rs              |  2 +-
 src/middle_end/ast_to_ir.rs         |  7 ++++--
 src/middle_end/compile_time_eval.rs |  2 +-
 5 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index 0416c5e..f2d336c 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -42,7 +42,7 @@ pub fn initialise_memory(
             .string_literal_id_to_ptr_map
             .insert(string_literal_id.to_owned(), ptr_to_string as u32);
         // insert the string
-        data.append(&mut string.as_bytes().to_vec());
+        data.extend(string.chars().map(|c| c as u8));
         // null terminate the string
         data.push(0x00);
     }
diff --git a/src/front_end/interpret_string.rs b/src/front_end/interpret_string.rs
index 0b846ef..08b9baa 100644
--- a/src/front_end/interpret_string.rs
+++ b/src/front_end/interpret_string.rs
@@ -4,8 +4,19 @@ use std::{iter::Peekable, str::Chars};
 #[path = "interpret_string_tests.rs"]
 mod interpret_string_tests;
 
+/// Interpret the escape sequences in a string or character constant. Each char of the result is
+/// the value of a single byte
 pub fn interpret_string(s: &str) -> Result<String, Error> {
-    InterpretString::new(s).collect()
+    let bytes: String = s.bytes().map(char::from).collect();
+    InterpretString::new(&bytes).collect()
+}
+
+/// The character whose code is given in an escape sequence, which has to fit in a byte
+fn char_from_code(code: &str, radix: u32) -> Result<char, Error> {
+    match u8::from_str_radix(code, radix) {
+        Ok(c) => Ok(char::from(c)),
+        Err(_) => Err(Error::InvalidCharCode(code.to_owned())),
+    }
 }
 
 struct InterpretString<'a> {
@@ -34,6 +45,10 @@ impl Iterator for InterpretString<'_> {
                     Some('n') => Ok('\n'),
                     Some('r') => Ok('\r'),
                     Some('t') => Ok('\t'),
+                    Some('a') => Ok('\x07'),
+                    Some('b') => Ok('\x08'),
+                    Some('v') => Ok('\x0b'),
+                    Some('f') => Ok('\x0c'),
                     Some('x') => {
                         // hex char code
                         // check whether the next digit is a valid hex digit,
@@ -54,11 +69,11 @@ impl Iterator for InterpretString<'_> {
                                 }
                                 // convert the hex code to an int, and then to
                                 // the corresponding char
-                                let hex_code = u32::from_str_radix(&buffer, 16).unwrap();
-                                match char::from_u32(hex_code) {
-                                    Some(c) => Ok(c),
-                                    None => Err(Error::InvalidCharCode(buffer)),
-                                }
+                                // (leading zeros don't matter)
+                                char_from_code(
+                                    &format!("0{}", buffer.trim_start_matches('0')),
+                                    16,
+                                )
                             }
                             Some(c) => Err(Error::InvalidEscapeChar(*c)),
                             None => Err(Error::EscapeCharAtEndOfString),
@@ -86,11 +101,7 @@ impl Iterator for InterpretString<'_> {
                         }
                         // convert the octal code to an int, and then to the
                         // corresponding char
-                        let oct_code = u32::from_str_radix(&buffer, 8).unwrap();
-                        match char::from_u32(oct_code) {
-                            Some(c) => Ok(c),
-                            None => Err(Error::InvalidCharCode(buffer)),
-                        }
+                        char_from_code(&buffer, 8)
                     }
                     Some(c) => Err(Error::InvalidEscapeChar(c)),
                     None => Err(Error::EscapeCharAtEndOfString),
diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 0a2f50e..4d47886 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -1019,7 +1019,7 @@ impl Fsm {
                 }),
             },
             State::Char2 => match input {
-                c @ '\'' | c @ '"' | c @ '?' | c @ '\\' | c @ 'n' | c @ 'r' | c @ 't' => {
+                c @ ('\'' | '"' | '?' | '\\' | 'n' | 'r' | 't' | 'a' | 'b' | 'v' | 'f') => {
                     match self.token {
                         Some(Token::CharConstant(mut s)) => {
                             s.push(c);
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 19ec47c..bb24270 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -922,7 +922,10 @@ pub fn convert_expression_to_ir(
         Expression::Constant(c) => match c {
             ast::Constant::Int(i) => Ok((instrs, Src::Constant(Constant::Int(i as i128)))),
             ast::Constant::Float(f) => Ok((instrs, Src::Constant(Constant::Float(f)))),
-            ast::Constant::Char(ch) => Ok((instrs, Src::Constant(Constant::Int(ch as i128)))),
+            // char is a signed type
+            ast::Constant::Char(ch) => {
+                Ok((instrs, Src::Constant(Constant::Int(ch as u8 as i8 as i128))))
+            }
         },
         Expression::StringLiteral(s) => {
             let string_id = prog.new_string_literal(s);
@@ -1379,7 +1382,7 @@ pub fn convert_expression_to_ir(
         Expression::SizeOfExpr(e) => {
             // only the type of the expression is needed, the expression isn't evaluated
             let string_literal_byte_size = match &*e {
-                Expression::StringLiteral(s) => Some(s.len() as u64 + 1),
+                Expression::StringLiteral(s) => Some(s.chars().count() as u64 + 1),
                 _ => None,
             };
             let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 9be5912..0fca6d3 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -52,7 +52,7 @@ fn eval(expr: Expression, context: &Context) -> Result<ConstantExpressionType, M
         Expression::Constant(c) => match c {
             AstConstant::Int(i) => Ok(ConstantExpressionType::Int(i as i128)),
             AstConstant::Float(f) => Ok(ConstantExpressionType::Float(f)),
-            AstConstant::Char(c) => Ok(ConstantExpressionType::Int(c as i128)),
+            AstConstant::Char(c) => Ok(ConstantExpressionType::Int(c as u8 as i8 as i128)),
         },
         Expression::StringLiteral(_) => Err(MiddleEndError::InvalidConstantExpression),
         Expression::Index(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
-- 
2.43.0


From f17fdd822841ba417f1045e2fce0fe1ca9e1ba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:19 +0000
Subject: [PATCH 38/90] fix: parse integers like strtol and strtoul, with their
 whole range

---
 runtime/stdlib/stdlib.mjs | 84 ++++++++++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 27 deletions(-)

diff --git a/runtime/stdlib/stdlib.mjs b/runtime/stdlib/stdlib.mjs
index e15cdea..fc8c6f2 100644
--- a/runtime/stdlib/stdlib.mjs
+++ b/runtime/stdlib/stdlib.mjs
@@ -1,6 +1,46 @@
 import {I32_SIZE, I64_SIZE, NULL, PTR_SIZE} from "../memory_constants.mjs";
 import {read_frame_ptr, read_int, read_ptr, read_string, store_int, store_ptr} from "../memory_operations.mjs";
-import {signed_to_unsigned_i64} from "../number_operations.mjs";
+
+const LONG_MIN = -(1n << 63n);
+const LONG_MAX = (1n << 63n) - 1n;
+const ULONG_MAX = (1n << 64n) - 1n;
+
+// the value of a digit in any base
+function digit_value(c) {
+    return /^[0-9a-zA-Z]$/.test(c) ? parseInt(c, 36) : Infinity;
+}
+
+// parse the integer that str starts with, like strtol
+// returns its sign, its magnitude, and the index of the end of it
+function parse_integer(str, base) {
+    const char_at = (i) => i < str.length ? str[i] : "";
+    let i = 0;
+    // skip initial whitespace
+    while (/^[ \t\n\v\f\r]$/.test(char_at(i))) {
+        i++;
+    }
+    const is_negative = char_at(i) === "-";
+    if (char_at(i) === "-" || char_at(i) === "+") {
+        i++;
+    }
+    // base prefix
+    const has_hex_prefix = char_at(i) === "0" && /^[xX]$/.test(char_at(i + 1)) && digit_value(char_at(i + 2)) < 16;
+    if ((base === 0 || base === 16) && has_hex_prefix) {
+        base = 16;
+        i += 2;
+    } else if (base === 0) {
+        base = char_at(i) === "0" ? 8 : 10;
+    }
+    const start_of_digits = i;
+    let magnitude = 0n;
+    while (digit_value(char_at(i)) < base) {
+        magnitude = magnitude * BigInt(base) + BigInt(digit_value(char_at(i)));
+        i++;
+    }
+    // if there isn't a number, the end is the start of str
+    const end = i === start_of_digits ? 0 : i;
+    return {is_negative, magnitude, end};
+}
 
 // long strtol(const char *str, char **endptr, int base);
 export function strtol(wasm_memory) {
@@ -17,20 +57,14 @@ export function strtol(wasm_memory) {
 
         const str = read_string(str_ptr, memory);
 
-        const result = BigInt(parseInt(str, Number(base)));
+        const {is_negative, magnitude, end} = parse_integer(str, Number(base));
+        // a value out of range is clamped to the range of long
+        let result = is_negative ? -magnitude : magnitude;
+        if (result < LONG_MIN) result = LONG_MIN;
+        if (result > LONG_MAX) result = LONG_MAX;
 
         if (end_ptr != NULL) {
-            let i = 0;
-            // skip initial whitespace
-            while (i < str.length && /\s/.test(str[i])) {
-                i++;
-            }
-            // skip to end of number
-            while (i < str.length && str[i] >= "0" && str[i] <= "9") {
-                i++;
-            }
-            let end_ptr_value = str_ptr + i;
-            store_ptr(end_ptr, end_ptr_value, memory);
+            store_ptr(end_ptr, str_ptr + end, memory);
         }
 
         // write return value
@@ -53,24 +87,20 @@ export function strtoul(wasm_memory) {
 
         const str = read_string(str_ptr, memory);
 
-        const result = parseInt(str, Number(base));
-        const unsigned_result = signed_to_unsigned_i64(BigInt(result));
+        const {is_negative, magnitude, end} = parse_integer(str, Number(base));
+        // a value out of range is clamped, and a minus sign negates an unsigned value
+        let result = magnitude;
+        if (magnitude > ULONG_MAX) {
+            result = ULONG_MAX;
+        } else if (is_negative) {
+            result = BigInt.asUintN(I64_SIZE * 8, -magnitude);
+        }
 
         if (end_ptr != NULL) {
-            let i = 0;
-            // skip initial whitespace
-            while (i < str.length && /\s/.test(str[i])) {
-                i++;
-            }
-            // skip to end of number
-            while (i < str.length && str[i] >= "0" && str[i] <= "9") {
-                i++;
-            }
-            let end_ptr_value = str_ptr + i;
-            store_ptr(end_ptr, end_ptr_value, memory);
+            store_ptr(end_ptr, str_ptr + end, memory);
         }
 
         // write return value
-        store_int(fp + PTR_SIZE, I64_SIZE, unsigned_result, memory);
+        store_int(fp + PTR_SIZE, I64_SIZE, result, memory);
     }
 }
-- 
2.43.0


From 0266a9891bb3d6e876624bf061e1607bca78d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:51 +0000
Subject: [PATCH 39/90] fix: recognise #include directives without a space, and
 with a comment after them

---
 src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index 5957077..e269709 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -63,7 +63,7 @@ fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), P
 /// If so, returns the name of the header file included, or None otherwise
 fn check_for_include(line: &str) -> Option<String> {
     lazy_static! {
-        static ref INCLUDE_RE: Regex = Regex::new(r#"^#include\s[<"](.*)[>"]"#).unwrap();
+        static ref INCLUDE_RE: Regex = Regex::new(r#"^\s*#\s*include\s*[<"]([^<>"]*)[>"]"#).unwrap();
     }
 
     if let Some(captures) = INCLUDE_RE.captures(line) {
-- 
2.43.0


From 5a197c7d13c6dd2127c0795007896f4f7ecfa333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:51 +0000
Subject: [PATCH 40/90] fix: an empty branch is a path in the live variable
 analysis

---
 src/back_end/dataflow_analysis/flowgraph.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/back_end/dataflow_analysis/flowgraph.rs b/src/back_end/dataflow_analysis/flowgraph.rs
index de93829..a8ec89e 100644
--- a/src/back_end/dataflow_analysis/flowgraph.rs
+++ b/src/back_end/dataflow_analysis/flowgraph.rs
@@ -320,11 +320,19 @@ fn add_instrs_to_flowgraph(
                     flowgraph.add_successor(prev_instr_id.to_owned(), instr_id.to_owned());
                 }
 
-                let (instrs1_entry, instrs1_exits, instrs1_jump_exits) =
+                let (instrs1_entry, mut instrs1_exits, instrs1_jump_exits) =
                     add_instrs_to_flowgraph(instrs1, flowgraph);
-                let (instrs2_entry, instrs2_exits, instrs2_jump_exits) =
+                let (instrs2_entry, mut instrs2_exits, instrs2_jump_exits) =
                     add_instrs_to_flowgraph(instrs2, flowgraph);
 
+                // control goes straight on from here if a branch is empty
+                if instrs1_entry.is_none() {
+                    instrs1_exits.insert(instr_id.to_owned());
+                }
+                if instrs2_entry.is_none() {
+                    instrs2_exits.insert(instr_id.to_owned());
+                }
+
                 if let Some(entry) = instrs1_entry {
                     flowgraph.add_successor(instr_id.to_owned(), entry);
                 }
-- 
2.43.0


From 2c5b78652ae4d8918563b4e3a99a3d0218b753fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 41/90] fix: drop blocks that can't be reached before relooping

---
 src/relooper/soupify.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/relooper/soupify.rs b/src/relooper/soupify.rs
index 0ab1f02..6772509 100644
--- a/src/relooper/soupify.rs
+++ b/src/relooper/soupify.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use log::trace;
 
@@ -25,7 +25,26 @@ pub fn soupify(
     for instr in &instrs {
         trace!("  {}", instr);
     }
-    instructions_to_soup_of_labels(instrs)
+    let (mut labels, entry) = instructions_to_soup_of_labels(instrs);
+    remove_unreachable_labels(&mut labels, &entry);
+    (labels, entry)
+}
+
+/// Remove the labels that can never be reached from the entry. Their branches would
+/// otherwise be taken for branches into blocks that don't contain the target.
+fn remove_unreachable_labels(labels: &mut Labels, entry: &LabelId) {
+    let mut reachable = HashSet::from([entry.to_owned()]);
+    let mut to_visit = vec![entry.to_owned()];
+    while let Some(label_id) = to_visit.pop() {
+        if let Some(label) = labels.get(&label_id) {
+            for target in label.possible_branch_targets() {
+                if reachable.insert(target.to_owned()) {
+                    to_visit.push(target);
+                }
+            }
+        }
+    }
+    labels.retain(|label_id, _| reachable.contains(label_id));
 }
 
 /// Add a new label at the start of the instructions, to be our entry-point
-- 
2.43.0


From 6f614be49df781c4dc32b8c83584237075aea942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 42/90] fix: return explicitly at the end of a function, whose
 last block may be inside a loop block

---
 src/relooper/relooper.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index 0532a59..36973ad 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -86,7 +86,11 @@ pub fn reloop(mut prog: Program) -> ReloopedProgram {
             continue;
         }
         let label_var = init_label_variable(&mut prog.program_metadata);
-        let (labels, entry) = soupify(function.instrs, &mut prog.program_metadata);
+        let mut instrs = function.instrs;
+        // make the return at the end of the function explicit, because the last label of the
+        // function may end up inside of a loop block
+        instrs.push(Instruction::Ret(prog.program_metadata.new_instr_id(), None));
+        let (labels, entry) = soupify(instrs, &mut prog.program_metadata);
 
         let mut context = RelooperContext::new(
             &mut loop_block_id_generator,
-- 
2.43.0


From 03d9b1ec6dffb6a40adefa398d4adfe4faa26f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 43/90] fix: the address of an array variable is the address of
 the array

---
 src/middle_end/ast_to_ir.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index bb24270..b51664a 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1196,11 +1196,20 @@ pub fn convert_expression_to_ir(
             }
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
             let dest = prog.new_var(ValueType::RValue);
-            instrs.push(Instruction::AddressOf(
-                prog.new_instr_id(),
-                dest.to_owned(),
-                expr_var,
-            ));
+            if expr_var_type.is_array_type() {
+                // the value of an array variable is already the address of the array
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    expr_var,
+                ));
+            } else {
+                instrs.push(Instruction::AddressOf(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    expr_var,
+                ));
+            }
             // store type of dest
             prog.add_var_type(dest.to_owned(), IrType::PointerTo(Box::new(expr_var_type)))?;
             Ok((instrs, Src::Var(dest)))
-- 
2.43.0


From 42632842946d8a1db127720754a2092469b557f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 44/90] fix: keep the sizes of variable length arrays from
 their declaration

---
 src/middle_end/ast_to_ir.rs | 61 +++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index b51664a..3080c8c 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -393,6 +393,12 @@ fn convert_statement_to_ir(
                                 // non-function declaration (normal variable)
                                 Some(name) => {
                                     trace!("Variable declaration: {}", name);
+                                    let type_info = keep_runtime_array_sizes(
+                                        type_info,
+                                        &mut instrs,
+                                        prog,
+                                        context,
+                                    )?;
                                     let var = prog.new_var(ValueType::LValue);
                                     context.add_variable_to_scope(
                                         name,
@@ -445,6 +451,8 @@ fn convert_statement_to_ir(
                             None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                             Some(x) => x,
                         };
+                        let dest_type_info =
+                            keep_runtime_array_sizes(dest_type_info, &mut instrs, prog, context)?;
 
                         // check for case of initialising a char array with a string literal
                         if dest_type_info.is_array_type() {
@@ -894,6 +902,59 @@ fn load_object_from_address(
     Ok(dest)
 }
 
+/// Evaluate the array sizes in a declared type that are only known at runtime. The sizes are those
+/// at the point of the declaration, so their values are kept for when the type is used later on.
+fn keep_runtime_array_sizes(
+    type_info: IrType,
+    instrs: &mut Vec<Instruction>,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<IrType, MiddleEndError> {
+    match type_info {
+        IrType::ArrayOf(inner_type, Some(TypeSize::Runtime(size_expr))) => {
+            let (mut size_expr_instrs, size_src) = convert_expression_to_ir(size_expr, prog, context)?;
+            instrs.append(&mut size_expr_instrs);
+            let size_type = size_src.get_type(&prog.program_metadata)?;
+            size_type.require_integral_type()?;
+            let (mut convert_instrs, size_src) =
+                convert_type_for_assignment(size_src, size_type, IrType::U32, prog)?;
+            instrs.append(&mut convert_instrs);
+
+            let size_var = prog.new_var(ValueType::LValue);
+            prog.add_var_type(size_var.to_owned(), IrType::U32)?;
+            // not a valid identifier, so it can't clash with the names in the program
+            let size_name = format!("size of array {size_var}");
+            context.add_variable_to_scope(
+                size_name.to_owned(),
+                size_var.to_owned(),
+                IrType::U32,
+            )?;
+            instrs.push(Instruction::DeclareVariable(
+                prog.new_instr_id(),
+                size_var.to_owned(),
+            ));
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                size_var,
+                size_src,
+            ));
+
+            let inner_type = keep_runtime_array_sizes(*inner_type, instrs, prog, context)?;
+            Ok(inner_type.wrap_with_array(Some(TypeSize::Runtime(Expression::Identifier(
+                Identifier(size_name),
+            )))))
+        }
+        IrType::ArrayOf(inner_type, size) => {
+            let inner_type = keep_runtime_array_sizes(*inner_type, instrs, prog, context)?;
+            Ok(inner_type.wrap_with_array(size))
+        }
+        IrType::PointerTo(inner_type) => {
+            Ok(keep_runtime_array_sizes(*inner_type, instrs, prog, context)?.wrap_with_pointer())
+        }
+        t => Ok(t),
+    }
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
-- 
2.43.0


From db94d42309cc1f53e909ba7ad9a97d261988c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 45/90] fix: an array operand of * is converted to a pointer,
 and i[a] is a[i]

---
 src/middle_end/ast_to_ir.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 3080c8c..504820f 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1011,6 +1011,15 @@ pub fn convert_expression_to_ir(
             instrs.append(&mut unary_convert_arr_instrs);
             let (mut unary_convert_index_instrs, index_var) = unary_convert(index_var, prog)?;
             instrs.append(&mut unary_convert_index_instrs);
+            // either operand can be the pointer: i[arr] is the same as arr[i]
+            let (arr_var, index_var) = if index_var
+                .get_type(&prog.program_metadata)?
+                .is_object_pointer_type()
+            {
+                (index_var, arr_var)
+            } else {
+                (arr_var, index_var)
+            };
             let arr_var_type = arr_var.get_type(&prog.program_metadata)?;
             arr_var_type.require_pointer_type()?;
             // the type of the actual array elements
@@ -1276,9 +1285,16 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::UnaryOp(UnaryOperator::Dereference, expr) => {
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
+            let (mut expr_instrs, mut expr_var) = convert_expression_to_ir(*expr, prog, context)?;
             instrs.append(&mut expr_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            let mut expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            // an array operand is converted to a pointer to its first element
+            if expr_var_type.is_array_type() {
+                let (mut unary_convert_instrs, ptr_var) = unary_convert(expr_var, prog)?;
+                instrs.append(&mut unary_convert_instrs);
+                expr_var = ptr_var;
+                expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            }
             if this_expr_directly_on_lhs_of_assignment {
                 // store to memory address
                 match expr_var_type {
-- 
2.43.0


From d936420801f41b2149e6516d984299cf847dd331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 46/90] fix: argv ends with a null pointer

---
 runtime/init_memory.mjs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtime/init_memory.mjs b/runtime/init_memory.mjs
index 62c9b4d..55298c3 100644
--- a/runtime/init_memory.mjs
+++ b/runtime/init_memory.mjs
@@ -1,4 +1,4 @@
-import {PTR_SIZE} from "./memory_constants.mjs";
+import {NULL, PTR_SIZE} from "./memory_constants.mjs";
 import {read_stack_ptr, store_ptr, store_stack_ptr} from "./memory_operations.mjs";
 
 // put the program arguments into wasm memory
@@ -10,8 +10,9 @@ export const put_args_into_memory = (args, wasm_memory) => {
     const argc = args.length;
     const argv = stack_ptr;
 
-    // allocate space for each pointer in argv
-    stack_ptr += PTR_SIZE * argc;
+    // allocate space for each pointer in argv, and the null pointer at the end of it
+    stack_ptr += PTR_SIZE * (argc + 1);
+    store_ptr(argv + argc * PTR_SIZE, NULL, memory);
 
     // store each arg after each other in memory and null-terminate
     for (let i = 0; i < argc; i++) {
-- 
2.43.0


From 3ca2793ec38ba08e07ae9d2b09c0434659f4012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 47/90] fix: accept floating constants with a leading zero and
 the digits 8 and 9

---
 src/front_end/lexer.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 4d47886..024189e 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -414,6 +414,7 @@ enum State {
     Float4,
     Oct1,
     Oct2,
+    OctFloat(String),
     Bin1,
     Bin2,
     Hex1,
@@ -894,6 +895,10 @@ impl Fsm {
                         token: Some(Token::OctalConstant(s)),
                     })
                 }
+                c if c.is_ascii_digit() => Some(Fsm {
+                    state: State::OctFloat(format!("0{c}")),
+                    token: None,
+                }),
                 _ => None,
             },
             State::Oct2 => match input {
@@ -927,6 +932,32 @@ impl Fsm {
                     }
                     _ => None,
                 },
+                c if c.is_ascii_digit() => match self.token {
+                    Some(Token::OctalConstant(s)) => Some(Fsm {
+                        state: State::OctFloat(format!("{s}{c}")),
+                        token: None,
+                    }),
+                    _ => None,
+                },
+                _ => None,
+            },
+            // leading zero, and not all digits are octal: only valid as a floating constant
+            State::OctFloat(mut s) => match input {
+                '.' => Some(Fsm {
+                    state: State::Float1,
+                    token: Some(Token::FloatingConstant(format!("{s}."))),
+                }),
+                'e' | 'E' => Some(Fsm {
+                    state: State::Float2,
+                    token: Some(Token::FloatingConstant(format!("{s}e"))),
+                }),
+                c if c.is_ascii_digit() => {
+                    s.push(c);
+                    Some(Fsm {
+                        state: State::OctFloat(s),
+                        token: None,
+                    })
+                }
                 _ => None,
             },
             State::Bin1 | State::Bin2 => match input {
-- 
2.43.0


From b14bc6c3433e86284aea3e3f33541b0a3228fd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 48/90] fix: octal and hexadecimal constants that only fit
 unsigned int have that type

---
 src/front_end/ast.rs                |  3 +++
 src/front_end/c_parser.lalrpop      | 11 ++++++++---
 src/middle_end/ast_to_ir.rs         |  8 ++++++++
 src/middle_end/compile_time_eval.rs |  4 +++-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index 88f2ebb..00a62e8 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -39,6 +39,8 @@ impl AstNode for Identifier {
 #[derive(Debug, Clone, PartialEq)]
 pub enum Constant {
     Int(u128),
+    /// an integer constant that has type unsigned int
+    UnsignedInt(u128),
     Float(f64),
     Char(char),
 }
@@ -47,6 +49,7 @@ impl AstNode for Constant {
     fn reconstruct_source(&self) -> String {
         match self {
             Constant::Int(i) => format!("{i}"),
+            Constant::UnsignedInt(i) => format!("{i:#x}"),
             Constant::Float(f) => format!("{f}"),
             Constant::Char(c) => format!("'{c}'"),
         }
diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index 8d1d198..ecb220a 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -138,13 +138,18 @@ CommaSepListWithTrailing<T>: Vec<T> = {
 pub Identifier: ast::Identifier = "Identifier" => ast::Identifier(<>.to_owned());
 
 pub Constant: ast::Constant = {
-  IntegerConstant => ast::Constant::Int(<>),
+  DecimalConstant => ast::Constant::Int(<>),
+  // the type is int, unsigned int, long or unsigned long: the first that can represent the value
+  NonDecimalConstant => if <> > i32::MAX as u128 && <> <= u32::MAX as u128 {
+      ast::Constant::UnsignedInt(<>)
+    } else {
+      ast::Constant::Int(<>)
+    },
   DecimalFloatingConstant => ast::Constant::Float(<>),
   CharConstant => ast::Constant::Char(<>),
 };
 
-IntegerConstant: u128 = {
-  DecimalConstant,
+NonDecimalConstant: u128 = {
   BinaryConstant,
   OctalConstant,
   HexConstant,
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 504820f..afe1e99 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -982,6 +982,14 @@ pub fn convert_expression_to_ir(
         }
         Expression::Constant(c) => match c {
             ast::Constant::Int(i) => Ok((instrs, Src::Constant(Constant::Int(i as i128)))),
+            ast::Constant::UnsignedInt(i) => {
+                let src = Src::Constant(Constant::Int(i as i128));
+                let src_type = src.get_type(&prog.program_metadata)?;
+                let (mut convert_instrs, dest) =
+                    get_type_conversion_instrs(src, src_type, IrType::U32, prog)?;
+                instrs.append(&mut convert_instrs);
+                Ok((instrs, dest))
+            }
             ast::Constant::Float(f) => Ok((instrs, Src::Constant(Constant::Float(f)))),
             // char is a signed type
             ast::Constant::Char(ch) => {
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 0fca6d3..ef208a7 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -50,7 +50,9 @@ fn eval(expr: Expression, context: &Context) -> Result<ConstantExpressionType, M
             }
         }
         Expression::Constant(c) => match c {
-            AstConstant::Int(i) => Ok(ConstantExpressionType::Int(i as i128)),
+            AstConstant::Int(i) | AstConstant::UnsignedInt(i) => {
+                Ok(ConstantExpressionType::Int(i as i128))
+            }
             AstConstant::Float(f) => Ok(ConstantExpressionType::Float(f)),
             AstConstant::Char(c) => Ok(ConstantExpressionType::Int(c as u8 as i8 as i128)),
         },
-- 
2.43.0


From af8eb74077ac3c9ecf895e84c733704ebadcd8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 49/90] fix: conditional expressions with void operands, or
 with a null pointer constant as the second operand

---
 src/front_end/ast.rs        | 16 ++++++++++++++++
 src/middle_end/ast_to_ir.rs | 23 ++++++++++++++++++++++-
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index 00a62e8..abc9808 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -186,6 +186,22 @@ pub enum ExpressionOrDeclaration {
     Declaration(Box<Statement>), // the Statement should be of value statement::Declarator
 }
 
+impl Expression {
+    /// a zero, or a zero cast to void*
+    pub fn is_null_pointer_constant(&self) -> bool {
+        match self {
+            Expression::Constant(Constant::Int(0)) => true,
+            Expression::Cast(type_name, expr) => {
+                let TypeName(specifier, declarator) = type_name;
+                specifier.type_specifier == TypeSpecifier::Void
+                    && *declarator == Some(Declarator::AbstractPointerDeclarator)
+                    && **expr == Expression::Constant(Constant::Int(0))
+            }
+            _ => false,
+        }
+    }
+}
+
 impl AstNode for ExpressionOrDeclaration {
     fn reconstruct_source(&self) -> String {
         match self {
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index afe1e99..34f7d0c 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -2026,6 +2026,8 @@ pub fn convert_expression_to_ir(
                 Src::Constant(Constant::Int(0)),
                 false_label.to_owned(),
             ));
+            let true_is_null = true_expr.is_null_pointer_constant();
+            let false_is_null = false_expr.is_null_pointer_constant();
             // if condition true, fall through to the true instructions
             let (mut true_instrs, true_var) = convert_expression_to_ir(*true_expr, prog, context)?;
             instrs.append(&mut true_instrs);
@@ -2042,8 +2044,27 @@ pub fn convert_expression_to_ir(
             let (mut unary_convert_false_instrs, mut false_var) = unary_convert(false_var, prog)?;
             let false_var_type = false_var.get_type(&prog.program_metadata)?;
 
+            if true_var_type == IrType::Void && false_var_type == IrType::Void {
+                // there is no result to assign
+                prog.add_var_type(dest.to_owned(), IrType::Void)?;
+                instrs.push(Instruction::Br(prog.new_instr_id(), end_label.to_owned()));
+                instrs.push(Instruction::Label(prog.new_instr_id(), false_label));
+                instrs.append(&mut false_instrs);
+                instrs.push(Instruction::Label(prog.new_instr_id(), end_label));
+                return Ok((instrs, Src::Var(dest)));
+            }
+
             let mut false_binary_convert_instrs = Vec::new();
-            if true_var_type != false_var_type {
+            if true_is_null && false_var_type.is_pointer_type() {
+                // a null pointer constant has the type of the other operand
+                let (mut convert_instrs, converted_var) =
+                    get_type_conversion_instrs(true_var, true_var_type, false_var_type, prog)?;
+                true_var = converted_var;
+                instrs.append(&mut convert_instrs);
+            } else if false_is_null && true_var_type.is_pointer_type() {
+                (false_binary_convert_instrs, false_var) =
+                    get_type_conversion_instrs(false_var, false_var_type, true_var_type, prog)?;
+            } else if true_var_type != false_var_type {
                 let (
                     mut true_binary_convert_instrs,
                     false_convert_instrs,
-- 
2.43.0


From 4de0c7e5cc30e12a8f42d73b11ee933da7783a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 50/90] fix: a braced string literal initialises a char array
 only, and the braced string of an inner array is not a pointer

---
 src/middle_end/aggregate_type_initialisers.rs | 10 ++++++++--
 src/middle_end/ast_to_ir.rs                   |  2 +-
 src/middle_end/ir_types.rs                    |  8 ++++++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index e6512f8..21a279a 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -55,7 +55,13 @@ pub fn array_initialiser(
 
     for mut array_member_initialiser in initialiser_list {
         // check for case of initialising a char array with a string literal
-        if array_member_type.is_array_type() {
+        if array_member_type.is_char_array_type() {
+            // the string literal may be in braces
+            if let Initialiser::List(inits) = &array_member_initialiser {
+                if let [string @ Initialiser::Expr(Expression::StringLiteral(_))] = &inits[..] {
+                    array_member_initialiser = string.to_owned();
+                }
+            }
             if let Initialiser::Expr(Expression::StringLiteral(s)) = array_member_initialiser {
                 array_member_initialiser = convert_string_literal_to_init_list_of_chars_ast(s);
             }
@@ -180,7 +186,7 @@ pub fn struct_initialiser(
         ));
 
         // check for case of initialising a char array with a string literal
-        if member_type.is_array_type() {
+        if member_type.is_char_array_type() {
             match member_initialiser.to_owned() {
                 Initialiser::Expr(e) => {
                     if let Expression::StringLiteral(s) = e.to_owned() {
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 34f7d0c..00de27e 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -455,7 +455,7 @@ fn convert_statement_to_ir(
                             keep_runtime_array_sizes(dest_type_info, &mut instrs, prog, context)?;
 
                         // check for case of initialising a char array with a string literal
-                        if dest_type_info.is_array_type() {
+                        if dest_type_info.is_char_array_type() {
                             match init_expr.to_owned() {
                                 Initialiser::Expr(e) => {
                                     if let Expression::StringLiteral(s) = e.to_owned() {
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index 250cc06..83f0eea 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -263,6 +263,14 @@ impl IrType {
         matches!(self, IrType::ArrayOf(..))
     }
 
+    /// an array that a string literal can initialise
+    pub fn is_char_array_type(&self) -> bool {
+        match self {
+            IrType::ArrayOf(t, _) => matches!(**t, IrType::I8 | IrType::U8),
+            _ => false,
+        }
+    }
+
     pub fn is_object_pointer_type(&self) -> bool {
         match self {
             IrType::PointerTo(t) => !matches!(**t, IrType::Function(_, _, _) | IrType::Void),
-- 
2.43.0


From b880a62fdc13fbb6a4f908f604619ac0c0eb2990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 51/90] fix: the left operand of -> may be an array

---
 src/middle_end/ast_to_ir.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 00de27e..d013804 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1187,8 +1187,14 @@ pub fn convert_expression_to_ir(
             }
         }
         Expression::IndirectMemberSelection(obj, Identifier(member_name)) => {
-            let (mut obj_instrs, obj_var) = convert_expression_to_ir(*obj, prog, context)?;
+            let (mut obj_instrs, mut obj_var) = convert_expression_to_ir(*obj, prog, context)?;
             instrs.append(&mut obj_instrs);
+            // an array operand is converted to a pointer to its first element
+            if obj_var.get_type(&prog.program_metadata)?.is_array_type() {
+                let (mut unary_convert_instrs, ptr_var) = unary_convert(obj_var, prog)?;
+                instrs.append(&mut unary_convert_instrs);
+                obj_var = ptr_var;
+            }
             let obj_var_type = obj_var.get_type(&prog.program_metadata)?;
             obj_var_type.require_pointer_type()?;
             let inner_type = obj_var_type.dereference_pointer_type()?;
-- 
2.43.0


From f286354da8e49448c87775c58fb13e1024442858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 52/90] fix: initialisers of unions, and of structures with a
 union member

---
 src/middle_end/aggregate_type_initialisers.rs | 46 ++++++++++++-------
 src/middle_end/ast_to_ir.rs                   |  3 +-
 src/middle_end/ir_types.rs                    | 13 ++++++
 3 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index 21a279a..2c6c51d 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -118,11 +118,11 @@ pub fn array_initialiser(
                     )?;
                     instrs.append(&mut init_instrs);
                 }
-                IrType::Struct(struct_id) => {
+                IrType::Struct(_) | IrType::Union(_) => {
                     // initialise nested struct
                     let mut init_instrs = struct_initialiser(
                         member_ptr_var.to_owned(),
-                        IrType::Struct(struct_id),
+                        array_member_type.to_owned(),
                         sub_member_initialisers,
                         prog,
                         context,
@@ -144,7 +144,7 @@ pub fn array_initialiser(
     Ok(instrs)
 }
 
-/// dest is a pointer to the struct to initialise
+/// dest is a pointer to the struct or union to initialise
 pub fn struct_initialiser(
     dest: VarId,
     dest_type_info: IrType,
@@ -154,22 +154,36 @@ pub fn struct_initialiser(
 ) -> Result<Vec<Instruction>, MiddleEndError> {
     let mut instrs = Vec::new();
 
-    let struct_type = dest_type_info.unwrap_struct_type(prog)?;
+    // the types and byte offsets of the members to initialise
+    let mut members = Vec::new();
+    match &dest_type_info {
+        IrType::Union(union_id) => {
+            // an initialiser of a union initialises its first member
+            members.push((prog.get_union_type(union_id)?.get_first_member_type()?, 0));
+        }
+        _ => {
+            let struct_type = dest_type_info.unwrap_struct_type(prog)?;
+            for member_index in 0..struct_type.member_count() {
+                members.push((
+                    struct_type.get_member_type_by_index(member_index)?,
+                    struct_type.get_member_byte_offset_by_index(member_index)?,
+                ));
+            }
+        }
+    }
 
-    // check that there aren't more initialisers than struct members
-    if initialiser_list.len() > struct_type.member_count() {
+    // check that there aren't more initialisers than members
+    if initialiser_list.len() > members.len() {
         return Err(MiddleEndError::MismatchedArrayInitialiserLength);
     }
     // the remaining members are initialised to zero
-    while initialiser_list.len() < struct_type.member_count() {
-        let member_type = struct_type.get_member_type_by_index(initialiser_list.len())?;
-        initialiser_list.push(zero_initialiser(&member_type));
+    for (member_type, _) in &members[initialiser_list.len()..] {
+        initialiser_list.push(zero_initialiser(member_type));
     }
 
-    for member_index in 0..struct_type.member_count() {
-        let mut member_initialiser = initialiser_list.get(member_index).unwrap().to_owned();
-        let member_type = struct_type.get_member_type_by_index(member_index)?;
-        let member_byte_offset = struct_type.get_member_byte_offset_by_index(member_index)?;
+    for (mut member_initialiser, (member_type, member_byte_offset)) in
+        initialiser_list.into_iter().zip(members)
+    {
 
         // pointer to the struct member we're currently initialising
         let member_ptr_var = prog.new_var(ValueType::LValue);
@@ -261,11 +275,11 @@ pub fn struct_initialiser(
                     )?;
                     instrs.append(&mut init_instrs);
                 }
-                IrType::Struct(struct_id) => {
+                IrType::Struct(_) | IrType::Union(_) => {
                     // initialise nested struct
                     let mut init_instrs = struct_initialiser(
                         member_ptr_var,
-                        IrType::Struct(struct_id),
+                        member_type,
                         sub_member_initialisers,
                         prog,
                         context,
@@ -282,7 +296,7 @@ pub fn struct_initialiser(
 
 /// the initialiser of a member that has no initialiser of its own
 fn zero_initialiser(member_type: &IrType) -> Initialiser {
-    if member_type.is_aggregate_type() {
+    if member_type.is_aggregate_type() || member_type.is_struct_or_union_type() {
         Initialiser::List(Vec::new())
     } else {
         Initialiser::Expr(Expression::Constant(AstConstant::Int(0)))
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index d013804..3c5c26d 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -586,9 +586,8 @@ fn convert_statement_to_ir(
                                             )?;
                                             instrs.append(&mut init_instrs);
                                         }
-                                        IrType::Struct(struct_id) => {
+                                        dest_type @ (IrType::Struct(_) | IrType::Union(_)) => {
                                             let dest = prog.new_var(ValueType::LValue);
-                                            let dest_type = IrType::Struct(struct_id);
                                             prog.add_var_type(
                                                 dest.to_owned(),
                                                 dest_type.to_owned(),
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index 83f0eea..b708845 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -567,6 +567,7 @@ pub struct UnionType {
     pub name: Option<String>,
     /// store members' names and types
     pub member_types: HashMap<String, IrType>,
+    pub first_member_type: Option<IrType>,
     pub total_byte_size: u64,
 }
 
@@ -575,6 +576,7 @@ impl UnionType {
         UnionType {
             name: Some(name),
             member_types: HashMap::new(),
+            first_member_type: None,
             total_byte_size: 0,
         }
     }
@@ -583,6 +585,7 @@ impl UnionType {
         UnionType {
             name: None,
             member_types: HashMap::new(),
+            first_member_type: None,
             total_byte_size: 0,
         }
     }
@@ -601,6 +604,9 @@ impl UnionType {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedUnionMemberSize),
         };
+        if self.first_member_type.is_none() {
+            self.first_member_type = Some(member_type.to_owned());
+        }
         self.member_types.insert(member_name, member_type);
         // total size of union is the size of the largest member
         if byte_size > self.total_byte_size {
@@ -613,6 +619,13 @@ impl UnionType {
         self.member_types.contains_key(member_name)
     }
 
+    pub fn get_first_member_type(&self) -> Result<IrType, MiddleEndError> {
+        match &self.first_member_type {
+            None => Err(MiddleEndError::InvalidInitialiserExpression),
+            Some(t) => Ok(t.to_owned()),
+        }
+    }
+
     pub fn get_member_type(&self, member_name: &str) -> Result<IrType, MiddleEndError> {
         match self.member_types.get(member_name) {
             None => Err(MiddleEndError::UnionMemberNotFound(format!(
-- 
2.43.0


From 7d82709b81aa7f65f4ca788e1f7c0e16fc9ccdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 53/90] fix: a string literal may fill a char array without its
 terminating null character

---
 src/middle_end/aggregate_type_initialisers.rs | 29 +++++++++++++------
 src/middle_end/ast_to_ir.rs                   |  4 +--
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index 2c6c51d..4a8a322 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -63,7 +63,8 @@ pub fn array_initialiser(
                 }
             }
             if let Initialiser::Expr(Expression::StringLiteral(s)) = array_member_initialiser {
-                array_member_initialiser = convert_string_literal_to_init_list_of_chars_ast(s);
+                array_member_initialiser =
+                    convert_string_literal_to_init_list_of_chars_ast(s, &array_member_type);
             }
         }
         match array_member_initialiser {
@@ -184,7 +185,6 @@ pub fn struct_initialiser(
     for (mut member_initialiser, (member_type, member_byte_offset)) in
         initialiser_list.into_iter().zip(members)
     {
-
         // pointer to the struct member we're currently initialising
         let member_ptr_var = prog.new_var(ValueType::LValue);
         prog.add_var_type(
@@ -205,7 +205,8 @@ pub fn struct_initialiser(
                 Initialiser::Expr(e) => {
                     if let Expression::StringLiteral(s) = e.to_owned() {
                         // convert string literal to array of chars
-                        member_initialiser = convert_string_literal_to_init_list_of_chars_ast(s);
+                        member_initialiser =
+                            convert_string_literal_to_init_list_of_chars_ast(s, &member_type);
                     }
                 }
                 Initialiser::List(inits) => {
@@ -214,7 +215,10 @@ pub fn struct_initialiser(
                             if let Expression::StringLiteral(s) = e.to_owned() {
                                 // convert string literal in braces to array of chars
                                 member_initialiser =
-                                    convert_string_literal_to_init_list_of_chars_ast(s);
+                                    convert_string_literal_to_init_list_of_chars_ast(
+                                        s,
+                                        &member_type,
+                                    );
                             }
                         }
                     }
@@ -304,16 +308,23 @@ fn zero_initialiser(member_type: &IrType) -> Initialiser {
 }
 
 /// convert a string literal to an array of chars, for array initialiser
-pub fn convert_string_literal_to_init_list_of_chars_ast(s: String) -> Initialiser {
+pub fn convert_string_literal_to_init_list_of_chars_ast(
+    s: String,
+    array_type: &IrType,
+) -> Initialiser {
     let mut char_initialisers = Vec::new();
     for c in s.chars() {
         char_initialisers.push(Initialiser::Expr(Expression::Constant(AstConstant::Char(
             c,
         ))));
     }
-    // string terminating char
-    char_initialisers.push(Initialiser::Expr(Expression::Constant(AstConstant::Char(
-        '\0',
-    ))));
+    // string terminating char, unless the array has only room for the others
+    let fills_array = matches!(array_type, IrType::ArrayOf(_, Some(TypeSize::CompileTime(size)))
+        if *size == char_initialisers.len() as u64);
+    if !fills_array {
+        char_initialisers.push(Initialiser::Expr(Expression::Constant(AstConstant::Char(
+            '\0',
+        ))));
+    }
     Initialiser::List(char_initialisers)
 }
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 3c5c26d..6b99f79 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -461,7 +461,7 @@ fn convert_statement_to_ir(
                                     if let Expression::StringLiteral(s) = e.to_owned() {
                                         // convert string literal to array of chars
                                         init_expr =
-                                            convert_string_literal_to_init_list_of_chars_ast(s);
+                                            convert_string_literal_to_init_list_of_chars_ast(s, &dest_type_info);
                                     }
                                 }
                                 Initialiser::List(inits) => {
@@ -469,7 +469,7 @@ fn convert_statement_to_ir(
                                         if let Initialiser::Expr(e) = inits.first().unwrap() {
                                             if let Expression::StringLiteral(s) = e.to_owned() {
                                                 // convert string literal in braces to array of chars
-                                                init_expr = convert_string_literal_to_init_list_of_chars_ast(s);
+                                                init_expr = convert_string_literal_to_init_list_of_chars_ast(s, &dest_type_info);
                                             }
                                         }
                                     }
-- 
2.43.0


From 3bce2f77d3ad567b4a199cb74b623d8e982b0145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 54/90] fix: a variable is in scope in its own initialiser

---
 src/middle_end/ast_to_ir.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 6b99f79..d37fa6d 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -486,6 +486,18 @@ fn convert_statement_to_ir(
                             Some(name) => {
                                 match init_expr {
                                     Initialiser::Expr(e) => {
+                                        // the variable is in scope in its own initialiser
+                                        let dest = prog.new_var(ValueType::LValue);
+                                        prog.add_var_type(
+                                            dest.to_owned(),
+                                            dest_type_info.to_owned(),
+                                        )?;
+                                        context.add_variable_to_scope(
+                                            name,
+                                            dest.to_owned(),
+                                            dest_type_info.to_owned(),
+                                        )?;
+
                                         let (mut expr_instrs, expr_var) =
                                             convert_expression_to_ir(e, prog, context)?;
                                         instrs.append(&mut expr_instrs);
@@ -526,21 +538,11 @@ fn convert_statement_to_ir(
                                             src = converted_var;
                                         }
 
-                                        let dest = prog.new_var(ValueType::LValue);
-                                        prog.add_var_type(
-                                            dest.to_owned(),
-                                            src.get_type(&prog.program_metadata)?,
-                                        )?;
                                         instrs.push(Instruction::SimpleAssignment(
                                             prog.new_instr_id(),
                                             dest.to_owned(),
                                             src,
                                         ));
-                                        context.add_variable_to_scope(
-                                            name,
-                                            dest.to_owned(),
-                                            dest_type_info.to_owned(),
-                                        )?;
                                     }
                                     Initialiser::List(initialisers) => match dest_type_info {
                                         IrType::ArrayOf(member_type, size) => {
-- 
2.43.0


From 29a15be85de833a26a3e67f2e2e6a3ba3f3fb5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 55/90] fix: constant expressions are evaluated in the types of
 their operands

---
 src/middle_end/compile_time_eval.rs | 154 ++++++++++++++++++++++++----
 1 file changed, 134 insertions(+), 20 deletions(-)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index ef208a7..4664f41 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -2,6 +2,7 @@ use crate::front_end::ast::{BinaryOperator, Expression, Identifier};
 use crate::front_end::ast::{Constant as AstConstant, UnaryOperator};
 use crate::middle_end::context::{Context, IdentifierResolveResult};
 use crate::middle_end::instructions::Constant as IrConstant;
+use crate::middle_end::ir_types::IrType;
 use crate::middle_end::middle_end_error::MiddleEndError;
 
 /// constant expression used for array bounds, explicit enum values,
@@ -39,7 +40,113 @@ fn checked(result: Option<i128>) -> Result<ConstantExpressionType, MiddleEndErro
     }
 }
 
+impl ConstantExpressionType {
+    fn is_true(&self) -> bool {
+        match self {
+            ConstantExpressionType::Int(i) => *i != 0,
+            ConstantExpressionType::Float(f) => *f != 0.,
+        }
+    }
+
+    /// convert the value to an arithmetic type
+    fn convert_to(self, to_type: &IrType) -> Self {
+        match (self, to_type) {
+            (ConstantExpressionType::Int(i), IrType::F64) => {
+                ConstantExpressionType::Float(i as f64)
+            }
+            (ConstantExpressionType::Int(i), IrType::U32) => {
+                ConstantExpressionType::Int(i as u32 as i128)
+            }
+            (ConstantExpressionType::Int(i), IrType::U64) => {
+                ConstantExpressionType::Int(i as u64 as i128)
+            }
+            (value, _) => value,
+        }
+    }
+}
+
+/// the type of a constant expression, after the integer promotions: one of int, unsigned int,
+/// long, unsigned long and double
+fn get_type(expr: &Expression, context: &Context) -> Result<IrType, MiddleEndError> {
+    match expr {
+        Expression::Identifier(Identifier(name)) => {
+            match context.resolve_identifier_to_var_or_const(name) {
+                Ok(IdentifierResolveResult::EnumConst(_)) => Ok(IrType::I32),
+                _ => Err(MiddleEndError::CantEvaluateAtCompileTime),
+            }
+        }
+        Expression::Constant(c) => match c {
+            AstConstant::Int(i) => Ok(IrConstant::Int(*i as i128).get_type(None)),
+            AstConstant::UnsignedInt(i) => match u32::try_from(*i) {
+                Ok(i) if i > i32::MAX as u32 => Ok(IrType::U32),
+                _ => Ok(IrConstant::Int(*i as i128).get_type(None)),
+            },
+            AstConstant::Float(_) => Ok(IrType::F64),
+            AstConstant::Char(_) => Ok(IrType::I32),
+        },
+        Expression::UnaryOp(op, expr) => match op {
+            UnaryOperator::Plus | UnaryOperator::Minus | UnaryOperator::BitwiseNot => {
+                get_type(expr, context)
+            }
+            UnaryOperator::LogicalNot => Ok(IrType::I32),
+            UnaryOperator::AddressOf | UnaryOperator::Dereference => {
+                Err(MiddleEndError::CantEvaluateAtCompileTime)
+            }
+        },
+        Expression::BinaryOp(op, left, right) => match op {
+            BinaryOperator::Mult
+            | BinaryOperator::Div
+            | BinaryOperator::Mod
+            | BinaryOperator::Add
+            | BinaryOperator::Sub
+            | BinaryOperator::BitwiseAnd
+            | BinaryOperator::BitwiseOr
+            | BinaryOperator::BitwiseXor => get_common_type(left, right, context),
+            BinaryOperator::LeftShift | BinaryOperator::RightShift => get_type(left, context),
+            BinaryOperator::LessThan
+            | BinaryOperator::GreaterThan
+            | BinaryOperator::LessThanEq
+            | BinaryOperator::GreaterThanEq
+            | BinaryOperator::Equal
+            | BinaryOperator::NotEqual
+            | BinaryOperator::LogicalAnd
+            | BinaryOperator::LogicalOr => Ok(IrType::I32),
+        },
+        Expression::Ternary(_, true_expr, false_expr) => {
+            get_common_type(true_expr, false_expr, context)
+        }
+        _ => Err(MiddleEndError::CantEvaluateAtCompileTime),
+    }
+}
+
+/// the type to which the operands of a binary operator are converted
+fn get_common_type(
+    left: &Expression,
+    right: &Expression,
+    context: &Context,
+) -> Result<IrType, MiddleEndError> {
+    let left_type = get_type(left, context)?;
+    let right_type = get_type(right, context)?;
+    // the common type is the later of the two types
+    for t in [IrType::F64, IrType::U64, IrType::I64, IrType::U32] {
+        if left_type == t || right_type == t {
+            return Ok(t);
+        }
+    }
+    Ok(IrType::I32)
+}
+
+/// evaluate an expression, and convert the result to the type of the expression
 fn eval(expr: Expression, context: &Context) -> Result<ConstantExpressionType, MiddleEndError> {
+    let result_type = get_type(&expr, context);
+    let result = eval_unconverted(expr, context)?;
+    Ok(result.convert_to(&result_type?))
+}
+
+fn eval_unconverted(
+    expr: Expression,
+    context: &Context,
+) -> Result<ConstantExpressionType, MiddleEndError> {
     match expr {
         Expression::Identifier(Identifier(name)) => {
             match context.resolve_identifier_to_var_or_const(&name) {
@@ -91,8 +198,28 @@ fn eval(expr: Expression, context: &Context) -> Result<ConstantExpressionType, M
         Expression::SizeOfExpr(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::SizeOfType(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::BinaryOp(op, left, right) => {
-            let left_result = eval(*left, context)?;
-            let right_result = eval(*right, context)?;
+            let left_result = eval(*left.to_owned(), context)?;
+            // the right operand of && and || isn't evaluated if the left one decides the result
+            match (&op, left_result.is_true()) {
+                (BinaryOperator::LogicalAnd, false) => return Ok(ConstantExpressionType::Int(0)),
+                (BinaryOperator::LogicalOr, true) => return Ok(ConstantExpressionType::Int(1)),
+                _ => {}
+            }
+            let right_result = eval(*right.to_owned(), context)?;
+            let (left_result, right_result) = match op {
+                // these don't convert their operands to a common type
+                BinaryOperator::LeftShift
+                | BinaryOperator::RightShift
+                | BinaryOperator::LogicalAnd
+                | BinaryOperator::LogicalOr => (left_result, right_result),
+                _ => {
+                    let common_type = get_common_type(&left, &right, context)?;
+                    (
+                        left_result.convert_to(&common_type),
+                        right_result.convert_to(&common_type),
+                    )
+                }
+            };
             match op {
                 BinaryOperator::Mult => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
@@ -266,27 +393,14 @@ fn eval(expr: Expression, context: &Context) -> Result<ConstantExpressionType, M
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
-                BinaryOperator::LogicalAnd => match (left_result, right_result) {
-                    (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(((l != 0) && (r != 0)) as i128))
-                    }
-                    _ => Err(MiddleEndError::InvalidConstantExpression),
-                },
-                BinaryOperator::LogicalOr => match (left_result, right_result) {
-                    (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(((l != 0) || (r != 0)) as i128))
-                    }
-                    _ => Err(MiddleEndError::InvalidConstantExpression),
-                },
+                BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr => {
+                    // the left operand didn't decide the result
+                    Ok(ConstantExpressionType::Int(right_result.is_true() as i128))
+                }
             }
         }
         Expression::Ternary(cond, true_expr, false_expr) => {
-            let cond_result = eval(*cond, context)?;
-            let cond_value = match cond_result {
-                ConstantExpressionType::Int(i) => i != 0,
-                ConstantExpressionType::Float(f) => f != 0.,
-            };
-            if cond_value {
+            if eval(*cond, context)?.is_true() {
                 eval(*true_expr, context)
             } else {
                 eval(*false_expr, context)
-- 
2.43.0


From db59ddea0b62e041b41b1ca230497fa4e62fc941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 56/90] fix: the values of enumeration constants are
 representable as int

---
 src/middle_end/get_ast_type_info.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 65093b5..1a96dc7 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -185,25 +185,28 @@ pub fn get_type_info(
                         }
                     }
                     if !skip_constant_definition {
-                        let mut next_constant_value = 0;
+                        // there is no next value if the last one was the largest possible
+                        let mut next_constant_value = Some(0);
                         for enum_constant in enum_constants {
                             match enum_constant {
                                 Enumerator::Simple(Identifier(name)) => {
-                                    context
-                                        .add_enum_constant(name.to_owned(), next_constant_value)?;
-                                    next_constant_value += 1;
+                                    let value = next_constant_value
+                                        .ok_or(MiddleEndError::InvalidConstantExpression)?;
+                                    context.add_enum_constant(name.to_owned(), value)?;
+                                    next_constant_value = value.checked_add(1);
                                 }
                                 Enumerator::WithValue(Identifier(name), value_expr) => {
-                                    let value =
-                                        eval_integral_constant_expression(
-                                            value_expr.to_owned(),
-                                            context,
-                                        )?
-                                            as EnumConstant;
+                                    let value = eval_integral_constant_expression(
+                                        value_expr.to_owned(),
+                                        context,
+                                    )?;
+                                    // the value must be representable as an int
+                                    let value = EnumConstant::try_from(value)
+                                        .map_err(|_| MiddleEndError::InvalidConstantExpression)?;
                                     context.add_enum_constant(name.to_owned(), value)?;
                                     // value of next constant without explicit value is one more than
                                     // the last constant
-                                    next_constant_value = value + 1;
+                                    next_constant_value = value.checked_add(1);
                                 }
                             }
                         }
-- 
2.43.0


From 4aa03fa100d05c25414f91a941baa157a562ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 57/90] fix: static data that doesn't fit into memory is an
 error

---
 src/back_end/backend_error.rs          |  4 ++++
 src/back_end/initialise_memory.rs      | 15 ++++++++++++---
 src/back_end/memory_constants.rs       |  3 +++
 src/back_end/target_code_generation.rs |  2 +-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/back_end/backend_error.rs b/src/back_end/backend_error.rs
index 2737c63..a63ad0c 100644
--- a/src/back_end/backend_error.rs
+++ b/src/back_end/backend_error.rs
@@ -5,6 +5,7 @@ use std::fmt::Formatter;
 #[derive(Debug)]
 pub enum BackendError {
     NoMainFunctionDefined,
+    StaticDataTooLarge,
 }
 
 #[allow(unreachable_patterns)]
@@ -14,6 +15,9 @@ impl fmt::Display for BackendError {
             BackendError::NoMainFunctionDefined => {
                 write!(f, "Program must define a \"main\" function")
             }
+            BackendError::StaticDataTooLarge => {
+                write!(f, "String literals and global variables don't fit into memory")
+            }
             e => write!(f, "Backend error: {e:?}"),
         }
     }
diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index f2d336c..cdd5ca2 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -2,7 +2,8 @@ use std::collections::HashMap;
 
 use log::info;
 
-use crate::back_end::memory_constants::{PTR_SIZE, STACK_PTR_ADDR};
+use crate::back_end::backend_error::BackendError;
+use crate::back_end::memory_constants::{MEMORY_SIZE, PTR_SIZE, STACK_PTR_ADDR};
 use crate::back_end::stack_allocation::allocate_vars::{
     allocate_global_vars, VariableAllocationMap,
 };
@@ -23,7 +24,7 @@ pub fn initialise_memory(
     module_context: &mut ModuleContext,
     prog_metadata: &ProgramMetadata,
     global_block: Option<&Block>,
-) -> VariableAllocationMap {
+) -> Result<VariableAllocationMap, BackendError> {
     // -----------------------------------------------------------------------------
     // | FP | temp FP | SP | String literals | Global vars | Args | ...stack frames...
     // -----------------------------------------------------------------------------
@@ -54,9 +55,17 @@ pub fn initialise_memory(
         let (var_addrs, end_addr) =
             allocate_global_vars(global_block, data.len() as u32, prog_metadata);
         global_var_addrs = var_addrs;
+        if end_addr > MEMORY_SIZE {
+            return Err(BackendError::StaticDataTooLarge);
+        }
         data.resize(end_addr as usize, 0x00);
     }
 
+    // the module can't be instantiated if its data doesn't fit into the memory
+    if data.len() > MEMORY_SIZE as usize {
+        return Err(BackendError::StaticDataTooLarge);
+    }
+
     // set stack ptr to point at top of stack
     let stack_ptr_value = data.len();
     info!("Setting stack ptr to {}", stack_ptr_value);
@@ -86,5 +95,5 @@ pub fn initialise_memory(
     };
     wasm_module.imports_section.imports.push(memory_import);
 
-    global_var_addrs
+    Ok(global_var_addrs)
 }
diff --git a/src/back_end/memory_constants.rs b/src/back_end/memory_constants.rs
index 07be394..cfe5403 100644
--- a/src/back_end/memory_constants.rs
+++ b/src/back_end/memory_constants.rs
@@ -1,5 +1,8 @@
 pub const PTR_SIZE: u32 = 4;
 
+/// the size of the memory that the runtime provides: one page
+pub const MEMORY_SIZE: u32 = 65536;
+
 // 0----4---------8----12---
 // | FP | temp FP | SP | ...
 // -------------------------
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index d096912..acde98b 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -61,7 +61,7 @@ pub fn generate_target_code(
         &mut module_context,
         &prog.program_metadata,
         prog.program_blocks.global_instrs.as_ref(),
-    );
+    )?;
 
     let mut func_idx_to_type_idx_map: HashMap<FuncIdx, TypeIdx> = HashMap::new();
     let mut func_idx_to_body_code_map: HashMap<FuncIdx, WasmExpression> = HashMap::new();
-- 
2.43.0


From 9280ee190d4c22e986084c08c13d43548a342f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 58/90] fix: the size of an array is neither negative nor
 larger than any object

---
 src/middle_end/get_ast_type_info.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 1a96dc7..87721ac 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -278,7 +278,11 @@ fn add_type_info_from_declarator(
             let size = match size_expr {
                 None => None,
                 Some(size_expr) => match eval_integral_constant_expression(*size_expr.to_owned(), context) {
-                    Ok(size) => Some(TypeSize::CompileTime(size as u64)),
+                    Ok(size) => match u32::try_from(size) {
+                        Ok(size) => Some(TypeSize::CompileTime(size as u64)),
+                        // the size is negative, or larger than any object
+                        Err(_) => return Err(MiddleEndError::InvalidConstantExpression),
+                    },
                     Err(_) => Some(TypeSize::Runtime(*size_expr)),
                 },
             };
-- 
2.43.0


From 011d6ab89edd2ed02c117a6b799cffb01b9635b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 59/90] fix: deeply nested programs don't overflow the stack of
 the compiler

---
 src/main.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0c08733..8315540 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -7,6 +7,12 @@ extern crate log;
 use c_to_wasm_compiler::CliConfig;
 use clap::Parser;
 use std::process;
+use std::thread;
+
+/// The passes are recursive functions over the tree of the program, so the
+/// stack they need depends on how deeply the program is nested. The stack of
+/// the main thread is too small for programs of a usual depth.
+const COMPILER_STACK_SIZE: usize = 512 * 1024 * 1024;
 
 fn main() {
     pretty_env_logger::init();
@@ -16,8 +22,18 @@ fn main() {
     debug!("Cli arguments: {:?}", args);
 
     // run program and handle error
-    if let Err(e) = c_to_wasm_compiler::run(args) {
-        error!("Compile error: {e}");
-        process::exit(1);
+    let compiler = thread::Builder::new()
+        .name("compiler".to_owned())
+        .stack_size(COMPILER_STACK_SIZE)
+        .spawn(move || {
+            if let Err(e) = c_to_wasm_compiler::run(args) {
+                error!("Compile error: {e}");
+                process::exit(1);
+            }
+        })
+        .expect("Failed to start the compiler");
+    // a panic has already printed its message
+    if compiler.join().is_err() {
+        process::exit(101);
     }
 }
-- 
2.43.0


From 2eada057affc1471a3a30b067676b4109149d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 60/90] fix: headers are included where the #include is, and
 macros of the host aren't predefined

---
 src/preprocessor.rs | 194 +++++++++-----------------------------------
 1 file changed, 38 insertions(+), 156 deletions(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index e269709..1bcf118 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -1,178 +1,54 @@
 use std::error::Error;
 use std::io;
-use std::io::{BufRead, ErrorKind, Write};
-use std::path::{Path, PathBuf};
-use std::process::{Command, Stdio};
+use std::io::ErrorKind;
+use std::path::Path;
+use std::process::Command;
 use std::{fmt, fs};
 
-use lazy_static::lazy_static;
 use log::info;
-use regex::Regex;
+
+/// The directory of the header files we supply
+const HEADERS_DIRECTORY: &str = "headers";
 
 pub fn preprocess(filepath: &Path) -> Result<String, PreprocessorError> {
     info!("Running preprocessor");
 
-    let (mut file_contents, includes) = remove_include_directives(filepath)?;
-
-    info!("Includes: {:?}", includes);
-
-    file_contents = include_headers(file_contents, includes, filepath)?;
-
-    info!("Included headers:\n{file_contents}");
-
-    let processed_source = match run_c_preprocessor(file_contents) {
-        Ok(s) => s,
-        Err(e) => return Err(PreprocessorError::CppError(e)),
-    };
-
-    info!("Preprocessor output:\n{processed_source}");
-
-    Ok(processed_source)
-}
-
-fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), PreprocessorError> {
-    // store the includes we remove from the file
-    let mut includes: Vec<String> = Vec::new();
-    let mut output = String::new();
-
-    match read_lines(filepath) {
-        Ok(lines) => {
-            for line in lines {
-                if let Ok(l) = line {
-                    // check if line is a #include directive
-                    if let Some(include) = check_for_include(&l) {
-                        includes.push(include);
-                        continue;
-                    }
-                    output.push_str(&l);
-                    output.push('\n');
-                }
-            }
-            Ok((output, includes))
-        }
-        Err(e) => match e.kind() {
+    // make sure that the file is there before we run cpp on it
+    if let Err(e) = fs::File::open(filepath) {
+        return match e.kind() {
             ErrorKind::NotFound => Err(PreprocessorError::FileNotFound(
                 filepath.to_str().unwrap().to_owned(),
             )),
             _ => Err(PreprocessorError::IoError(e)),
-        },
-    }
-}
-
-/// Checks if the given line is a #include directive.
-/// If so, returns the name of the header file included, or None otherwise
-fn check_for_include(line: &str) -> Option<String> {
-    lazy_static! {
-        static ref INCLUDE_RE: Regex = Regex::new(r#"^\s*#\s*include\s*[<"]([^<>"]*)[>"]"#).unwrap();
+        };
     }
 
-    if let Some(captures) = INCLUDE_RE.captures(line) {
-        // store what the include was that we're removing
-        if let Some(captured_include) = captures.get(1) {
-            return Some(captured_include.as_str().to_owned());
-        }
-    }
-
-    None
-}
-
-/// Returns an iterator over the lines of the file
-fn read_lines(filepath: &Path) -> io::Result<io::Lines<io::BufReader<fs::File>>> {
-    let file = fs::File::open(filepath)?;
-    Ok(io::BufReader::new(file).lines())
-}
-
-fn include_headers(
-    mut source: String,
-    mut includes: Vec<String>,
-    filepath: &Path,
-) -> Result<String, PreprocessorError> {
-    loop {
-        if includes.is_empty() {
-            break;
-        }
-        let include_name = includes.pop().unwrap();
-        let header =
-            if include_name == format!("{}.h", filepath.file_stem().unwrap().to_str().unwrap()) {
-                match load_program_header(filepath, &include_name) {
-                    Err(e) => {
-                        return match e {
-                            PreprocessorError::FileNotFound(f) => {
-                                Err(PreprocessorError::UnsupportedHeaderInclude(f))
-                            }
-                            _ => Err(e),
-                        }
-                    }
-                    Ok(s) => s,
-                }
-            } else {
-                match load_header_file(&include_name) {
-                    Err(e) => {
-                        return match e {
-                            PreprocessorError::FileNotFound(f) => {
-                                Err(PreprocessorError::UnsupportedHeaderInclude(f))
-                            }
-                            _ => Err(e),
-                        }
-                    }
-                    Ok(s) => s,
-                }
-            };
-        let (header_source, mut new_includes) = header;
-        info!("New includes: {:?}", new_includes);
-        includes.append(&mut new_includes);
-        source.insert(0, '\n');
-        source.insert_str(0, header_source.as_str())
-    }
-    Ok(source)
-}
-
-fn load_program_header(
-    source_filepath: &Path,
-    header_name: &String,
-) -> Result<(String, Vec<String>), PreprocessorError> {
-    let path = match source_filepath.parent() {
-        Some(p) => {
-            let mut path = PathBuf::from(p);
-            path.push(header_name);
-            path
-        }
-        None => PathBuf::from(&header_name),
+    let processed_source = match run_c_preprocessor(filepath) {
+        Ok(s) => s,
+        Err(e) => return Err(PreprocessorError::CppError(e)),
     };
-    remove_include_directives(path.as_path())
-}
 
-fn load_header_file(header_name: &String) -> Result<(String, Vec<String>), PreprocessorError> {
-    let mut path = PathBuf::from("headers");
-    path.push(header_name);
-    remove_include_directives(path.as_path())
+    info!("Preprocessor output:\n{processed_source}");
+
+    Ok(processed_source)
 }
 
-/// Runs the C preprocessor over the given source.
-fn run_c_preprocessor(source: String) -> Result<String, Box<dyn Error>> {
-    let mut cpp_child = Command::new("cpp")
-        // capture input, output, and error
-        .stdin(Stdio::piped())
-        .stdout(Stdio::piped())
-        .stderr(Stdio::piped())
+/// Runs the C preprocessor over the given file.
+fn run_c_preprocessor(filepath: &Path) -> Result<String, Box<dyn Error>> {
+    let output = Command::new("cpp")
         // args to cpp
-        .arg("-") // process from stdin
-        .arg("-") // output to stdout
         .arg("-P") // don't include line marker information
-        .spawn()?;
-
-    // write the contents of source to stdin for cpp
-    cpp_child
-        .stdin
-        .as_mut()
-        .ok_or("Child process stdin hasn't been captured")?
-        .write_all(source.as_bytes())?;
-
-    // capture the output from cpp
-    let output = cpp_child.wait_with_output()?;
+        .arg("-std=c11")
+        .arg("-undef") // the macros of the host aren't ours
+        .arg("-nostdinc") // neither are its headers
+        .arg("-I")
+        .arg(HEADERS_DIRECTORY)
+        .arg(filepath)
+        // capture the output from cpp
+        .output()?;
 
     if output.status.success() {
-        Ok(String::from_utf8(output.stdout)?)
+        Ok(remove_pragmas(&String::from_utf8(output.stdout)?))
     } else {
         // terminate the program if the preprocessor can't parse the file
         let err = String::from_utf8(output.stderr)?;
@@ -180,10 +56,19 @@ fn run_c_preprocessor(source: String) -> Result<String, Box<dyn Error>> {
     }
 }
 
+/// Pragmas are the only directives that cpp leaves in its output. We don't know
+/// any of them, so they have no effect.
+fn remove_pragmas(source: &str) -> String {
+    source
+        .lines()
+        .filter(|line| !line.starts_with("#pragma"))
+        .flat_map(|line| [line, "\n"])
+        .collect()
+}
+
 #[derive(Debug)]
 pub enum PreprocessorError {
     FileNotFound(String),
-    UnsupportedHeaderInclude(String),
     IoError(io::Error),
     CppError(Box<dyn Error>),
 }
@@ -191,9 +76,6 @@ pub enum PreprocessorError {
 impl fmt::Display for PreprocessorError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
-            PreprocessorError::UnsupportedHeaderInclude(h) => {
-                write!(f, "Header \"{h}\" not supported")
-            }
             PreprocessorError::IoError(e) => {
                 write!(f, "IO Error occurred during preprocessor: {e}")
             }
-- 
2.43.0


From bb013f3a92031195427d65761ccbe997be930b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 61/90] fix: UINT_MAX has type unsigned int

---
 headers/limits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers/limits.h b/headers/limits.h
index 91f59b1..a5384fd 100644
--- a/headers/limits.h
+++ b/headers/limits.h
@@ -14,7 +14,7 @@
 
 #define INT_MIN (-2147483647 - 1)
 #define INT_MAX 2147483647
-#define UINT_MAX 4294967295
+#define UINT_MAX 0xFFFFFFFF
 
 #define LONG_MIN (-9223372036854775807 - 1)
 #define LONG_MAX 9223372036854775807
-- 
2.43.0


From 8e0f50cb0971a1cc1eb7133ee5e65eea3359e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:03 +0000
Subject: [PATCH 62/90] fix: a typedef name can be declared again, as with
 <stddef.h> and <string.h>

---
 src/front_end/lexer.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 024189e..cca853c 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -284,7 +284,12 @@ impl<'input> Iterator for Lexer<'input> {
                             )));
                             Some(Ok((start.unwrap(), t, end.unwrap())))
                         }
-                        Some(t) => {
+                        Some(mut t) => {
+                            if let Token::TypedefName(name) = &t {
+                                if self.is_redeclared_typedef() {
+                                    t = Token::Identifier(name.to_owned());
+                                }
+                            }
                             trace!("Lexed token: {:?}", t);
                             if self.inside_typedef_stmt {
                                 self.typedef_stmt_buffer.push(Ok((
@@ -315,6 +320,34 @@ impl<'input> Iterator for Lexer<'input> {
 }
 
 impl Lexer<'_> {
+    /// A typedef name that comes after the type in a typedef statement is declared again,
+    /// it isn't part of the type
+    fn is_redeclared_typedef(&self) -> bool {
+        if !self.inside_typedef_stmt || self.typedef_stmt_nesting_depth > 0 {
+            return false;
+        }
+        matches!(
+            self.typedef_stmt_buffer.last(),
+            Some(Ok((
+                _,
+                Token::Asterisk
+                    | Token::Char
+                    | Token::Double
+                    | Token::Float
+                    | Token::Identifier(_)
+                    | Token::Int
+                    | Token::Long
+                    | Token::RightCurly
+                    | Token::Short
+                    | Token::Signed
+                    | Token::TypedefName(_)
+                    | Token::Unsigned
+                    | Token::Void,
+                _
+            )))
+        )
+    }
+
     fn parse_typedef_name(&mut self) -> Result<(), LexError> {
         let result = c_parser::DeclarationParser::new().parse(self.typedef_stmt_buffer.to_vec());
         if let Ok(ast::Statement::Declaration(_, ds)) = result {
-- 
2.43.0


From 6998747c0656da5fdcb509a7490b3d667cf45485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:29 +0000
Subject: [PATCH 63/90] fix: a name that is declared twice in the same scope is
 an error

---
 src/middle_end/ast_to_ir.rs        | 101 +++++++++++++++++------------
 src/middle_end/context.rs          |  54 ++++++++++++++-
 src/middle_end/middle_end_error.rs |   1 +
 3 files changed, 112 insertions(+), 44 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index d37fa6d..ffda8c6 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -399,13 +399,13 @@ fn convert_statement_to_ir(
                                         prog,
                                         context,
                                     )?;
-                                    let var = prog.new_var(ValueType::LValue);
-                                    context.add_variable_to_scope(
-                                        name,
-                                        var.to_owned(),
-                                        type_info.to_owned(),
+                                    let (var, is_redeclared) = declare_variable(
+                                        name, &type_info, false, prog, context,
                                     )?;
-                                    prog.add_var_type(var.to_owned(), type_info.to_owned())?;
+                                    if is_redeclared {
+                                        is_initial_declarator = false;
+                                        continue;
+                                    }
 
                                     // if we're declaring an array, allocate space at the end of the stack
                                     if type_info.is_array_type() {
@@ -487,15 +487,12 @@ fn convert_statement_to_ir(
                                 match init_expr {
                                     Initialiser::Expr(e) => {
                                         // the variable is in scope in its own initialiser
-                                        let dest = prog.new_var(ValueType::LValue);
-                                        prog.add_var_type(
-                                            dest.to_owned(),
-                                            dest_type_info.to_owned(),
-                                        )?;
-                                        context.add_variable_to_scope(
+                                        let (dest, _) = declare_variable(
                                             name,
-                                            dest.to_owned(),
-                                            dest_type_info.to_owned(),
+                                            &dest_type_info,
+                                            true,
+                                            prog,
+                                            context,
                                         )?;
 
                                         let (mut expr_instrs, expr_var) =
@@ -546,16 +543,9 @@ fn convert_statement_to_ir(
                                     }
                                     Initialiser::List(initialisers) => match dest_type_info {
                                         IrType::ArrayOf(member_type, size) => {
-                                            let dest = prog.new_var(ValueType::LValue);
                                             let dest_type = IrType::ArrayOf(member_type, size);
-                                            prog.add_var_type(
-                                                dest.to_owned(),
-                                                dest_type.to_owned(),
-                                            )?;
-                                            context.add_variable_to_scope(
-                                                name,
-                                                dest.to_owned(),
-                                                dest_type.to_owned(),
+                                            let (dest, is_redeclared) = declare_variable(
+                                                name, &dest_type, true, prog, context,
                                             )?;
 
                                             let array_byte_size = match dest_type
@@ -573,11 +563,13 @@ fn convert_statement_to_ir(
                                                     size_var
                                                 }
                                             };
-                                            instrs.push(Instruction::AllocateVariable(
-                                                prog.new_instr_id(),
-                                                dest.to_owned(),
-                                                array_byte_size,
-                                            ));
+                                            if !is_redeclared {
+                                                instrs.push(Instruction::AllocateVariable(
+                                                    prog.new_instr_id(),
+                                                    dest.to_owned(),
+                                                    array_byte_size,
+                                                ));
+                                            }
 
                                             let mut init_instrs = array_initialiser(
                                                 dest,
@@ -589,21 +581,15 @@ fn convert_statement_to_ir(
                                             instrs.append(&mut init_instrs);
                                         }
                                         dest_type @ (IrType::Struct(_) | IrType::Union(_)) => {
-                                            let dest = prog.new_var(ValueType::LValue);
-                                            prog.add_var_type(
-                                                dest.to_owned(),
-                                                dest_type.to_owned(),
-                                            )?;
-                                            context.add_variable_to_scope(
-                                                name,
-                                                dest.to_owned(),
-                                                dest_type.to_owned(),
+                                            let (dest, is_redeclared) = declare_variable(
+                                                name, &dest_type, true, prog, context,
                                             )?;
-
-                                            instrs.push(Instruction::DeclareVariable(
-                                                prog.new_instr_id(),
-                                                dest.to_owned(),
-                                            ));
+                                            if !is_redeclared {
+                                                instrs.push(Instruction::DeclareVariable(
+                                                    prog.new_instr_id(),
+                                                    dest.to_owned(),
+                                                ));
+                                            }
 
                                             // dest_ptr = &dest
                                             let dest_ptr = prog.new_var(ValueType::LValue);
@@ -694,7 +680,16 @@ fn convert_statement_to_ir(
             let fun_id = prog.new_fun_body(name.to_owned(), fun_declaration)?;
             context.add_function_declaration(name.to_owned(), fun_id)?;
             // function body instructions
-            let instrs = convert_statement_to_ir(*body, prog, context)?;
+            // the body is in the same scope as the parameters
+            let mut instrs = Vec::new();
+            match *body {
+                Statement::Block(stmts) => {
+                    for s in stmts {
+                        instrs.append(&mut convert_statement_to_ir(s, prog, context)?);
+                    }
+                }
+                body => instrs.append(&mut convert_statement_to_ir(body, prog, context)?),
+            }
             // label names are local to the function
             check_all_named_labels_are_defined(&instrs, prog)?;
             prog.program_metadata.label_ids.clear();
@@ -710,6 +705,26 @@ fn convert_statement_to_ir(
     Ok(instrs)
 }
 
+/// add a variable to the current scope. Returns the variable, and whether it had already been
+/// declared
+fn declare_variable(
+    name: String,
+    type_info: &IrType,
+    is_initialised: bool,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(VarId, bool), MiddleEndError> {
+    if let Some(var) =
+        context.resolve_redeclared_global_variable(&name, type_info, is_initialised)?
+    {
+        return Ok((var, true));
+    }
+    let var = prog.new_var(ValueType::LValue);
+    context.add_variable_to_scope(name, var.to_owned(), type_info.to_owned())?;
+    prog.add_var_type(var.to_owned(), type_info.to_owned())?;
+    Ok((var, false))
+}
+
 /// a label that is only named by goto statements would leave them nowhere to go
 fn check_all_named_labels_are_defined(
     instrs: &[Instruction],
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 29d96f8..725ad8f 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use log::trace;
 
@@ -14,6 +14,7 @@ pub struct Context {
     scope_stack: Vec<Scope>,
     pub in_function_name_expr: bool,
     function_names: HashMap<String, FunId>,
+    initialised_global_names: HashSet<String>,
     pub directly_on_lhs_of_assignment: bool,
 }
 
@@ -29,6 +30,7 @@ impl Context {
             scope_stack: vec![Scope::new()], // start with a global scope
             in_function_name_expr: false,
             function_names: HashMap::new(),
+            initialised_global_names: HashSet::new(),
             directly_on_lhs_of_assignment: false,
         }
     }
@@ -177,12 +179,38 @@ impl Context {
         type_info: IrType,
     ) -> Result<(), MiddleEndError> {
         trace!("adding variable \"{}\" to scope", name);
+        if self.is_in_global_scope() && self.function_names.contains_key(&name) {
+            return Err(MiddleEndError::DuplicateIdentifierDeclaration(name));
+        }
         match self.scope_stack.last_mut() {
             None => Err(MiddleEndError::ScopeError),
             Some(scope) => scope.add_var(name, var, type_info),
         }
     }
 
+    /// a global variable can be declared more than once, with the same type, but can only be
+    /// initialised once
+    pub fn resolve_redeclared_global_variable(
+        &mut self,
+        name: &str,
+        type_info: &IrType,
+        is_initialised: bool,
+    ) -> Result<Option<VarId>, MiddleEndError> {
+        if !self.is_in_global_scope() {
+            return Ok(None);
+        }
+        if is_initialised && !self.initialised_global_names.insert(name.to_owned()) {
+            return Err(MiddleEndError::DuplicateIdentifierDeclaration(
+                name.to_owned(),
+            ));
+        }
+        let scope = self.scope_stack.last().ok_or(MiddleEndError::ScopeError)?;
+        match scope.resolve_identifier_to_var(name) {
+            Some(var) if scope.variable_types.get(&var) == Some(type_info) => Ok(Some(var)),
+            _ => Ok(None),
+        }
+    }
+
     // pub fn resolve_identifier_to_var(
     //     &self,
     //     identifier_name: &str,
@@ -245,6 +273,9 @@ impl Context {
         name: String,
         value: EnumConstant,
     ) -> Result<(), MiddleEndError> {
+        if self.is_in_global_scope() && self.function_names.contains_key(&name) {
+            return Err(MiddleEndError::DuplicateIdentifierDeclaration(name));
+        }
         match self.scope_stack.last_mut() {
             None => Err(MiddleEndError::ScopeError),
             Some(scope) => scope.add_enum_constant(name, value),
@@ -402,6 +433,13 @@ impl Context {
             }
             return Err(MiddleEndError::DuplicateFunctionDeclaration(name));
         }
+        if self
+            .scope_stack
+            .first()
+            .is_some_and(|scope| scope.is_ordinary_identifier(&name))
+        {
+            return Err(MiddleEndError::DuplicateIdentifierDeclaration(name));
+        }
         self.function_names.insert(name, fun_id);
         Ok(())
     }
@@ -494,11 +532,22 @@ impl Scope {
         var: VarId,
         type_info: IrType,
     ) -> Result<(), MiddleEndError> {
+        if self.is_ordinary_identifier(&identifier_name) {
+            return Err(MiddleEndError::DuplicateIdentifierDeclaration(
+                identifier_name,
+            ));
+        }
         self.variable_names.insert(identifier_name, var.to_owned());
         self.variable_types.insert(var, type_info);
         Ok(())
     }
 
+    /// whether the identifier is already declared as a variable or an enum constant
+    fn is_ordinary_identifier(&self, identifier_name: &str) -> bool {
+        self.variable_names.contains_key(identifier_name)
+            || self.enum_constants.contains_key(identifier_name)
+    }
+
     fn resolve_identifier_to_var(&self, identifier_name: &str) -> Option<VarId> {
         self.variable_names
             .get(identifier_name)
@@ -526,6 +575,9 @@ impl Scope {
         if self.enum_constants.contains_key(&name) {
             return Err(MiddleEndError::DuplicateEnumConstantDeclaration(name));
         }
+        if self.variable_names.contains_key(&name) {
+            return Err(MiddleEndError::DuplicateIdentifierDeclaration(name));
+        }
         trace!("Setting enum constant {} = {}", name, value);
         self.enum_constants.insert(name, value);
         Ok(())
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index e63c39b..ff59194 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -23,6 +23,7 @@ pub enum MiddleEndError {
     DuplicateFunctionDeclaration(String),
     DuplicateTypeDeclaration(String),
     DuplicateEnumConstantDeclaration(String),
+    DuplicateIdentifierDeclaration(String),
     InvalidDeclaration,
     InvalidAbstractDeclarator,
     InvalidConstantExpression,
-- 
2.43.0


From 7315a6285bb071661a5a7826a1cede131b37c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:00 +0000
Subject: [PATCH 64/90] fix: a function can be declared again, but not defined
 again

---
 src/middle_end/ast_to_ir.rs | 8 +++++++-
 src/middle_end/ir.rs        | 6 ++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index ffda8c6..5c97036 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -677,7 +677,13 @@ fn convert_statement_to_ir(
             }
             // add function to context and prog before converting body, because might be recursive
             let fun_declaration = Function::declaration(type_info.to_owned());
-            let fun_id = prog.new_fun_body(name.to_owned(), fun_declaration)?;
+            let fun_id = prog.new_fun_declaration(name.to_owned(), fun_declaration)?;
+            // a function can only be defined once
+            if let Some(fun) = prog.program_instructions.functions.get(&fun_id) {
+                if fun.body_is_defined {
+                    return Err(MiddleEndError::DuplicateFunctionDeclaration(name));
+                }
+            }
             context.add_function_declaration(name.to_owned(), fun_id)?;
             // function body instructions
             // the body is in the same scope as the parameters
diff --git a/src/middle_end/ir.rs b/src/middle_end/ir.rs
index 6dd022c..a40db58 100644
--- a/src/middle_end/ir.rs
+++ b/src/middle_end/ir.rs
@@ -347,6 +347,12 @@ impl Program {
         name: String,
         fun: Function,
     ) -> Result<FunId, MiddleEndError> {
+        // a function can be declared any number of times, with the same type
+        if let Some(existing_fun_id) = self.program_metadata.function_ids.get(&name) {
+            if self.get_fun_type(existing_fun_id)? == fun.type_info {
+                return Ok(existing_fun_id.to_owned());
+            }
+        }
         let fun_id = self.program_metadata.new_fun_declaration(name)?;
         self.program_metadata
             .function_types
-- 
2.43.0


From 8bf6810f51996041e91c5fc19d279977179779c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 65/90] fix: a function with an array parameter can be declared
 with a pointer parameter

---
 src/middle_end/get_ast_type_info.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 87721ac..7ec8afc 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -8,7 +8,9 @@ use crate::front_end::ast::{
 use crate::middle_end::compile_time_eval::eval_integral_constant_expression;
 use crate::middle_end::context::Context;
 use crate::middle_end::ir::Program;
-use crate::middle_end::ir_types::{EnumConstant, IrType, StructType, TypeSize, UnionType};
+use crate::middle_end::ir_types::{
+    array_to_pointer_type, EnumConstant, IrType, StructType, TypeSize, UnionType,
+};
 use crate::middle_end::middle_end_error::MiddleEndError;
 
 pub type FunctionParameterBindings = Vec<(String, IrType)>;
@@ -313,7 +315,8 @@ fn add_type_info_from_declarator(
                 if param_type == IrType::Void && param_name.is_none() {
                     continue;
                 }
-                param_types.push(param_type.to_owned());
+                // an array parameter is a pointer
+                param_types.push(array_to_pointer_type(param_type.to_owned()));
                 if let Some(name) = param_name {
                     param_bindings.push((name, param_type));
                 }
-- 
2.43.0


From 5aaf82c22d8a8ad8559a5adac03d99961ed8ca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:07 +0000
Subject: [PATCH 66/90] fix: a label that is defined twice in a function is an
 error

---
 src/middle_end/ast_to_ir.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 5c97036..aecedb6 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -697,7 +697,7 @@ fn convert_statement_to_ir(
                 body => instrs.append(&mut convert_statement_to_ir(body, prog, context)?),
             }
             // label names are local to the function
-            check_all_named_labels_are_defined(&instrs, prog)?;
+            check_all_named_labels_are_defined_once(&instrs, prog)?;
             prog.program_metadata.label_ids.clear();
             let instrs = convert_return_values_to_return_type(instrs, &type_info, prog)?;
             // update function in program with full body
@@ -731,17 +731,25 @@ fn declare_variable(
     Ok((var, false))
 }
 
-/// a label that is only named by goto statements would leave them nowhere to go
-fn check_all_named_labels_are_defined(
+/// a label that is only named by goto statements would leave them nowhere to go, and one that is
+/// defined twice would leave them two places to go
+fn check_all_named_labels_are_defined_once(
     instrs: &[Instruction],
     prog: &Program,
 ) -> Result<(), MiddleEndError> {
     for (name, label) in &prog.program_metadata.label_ids {
-        let is_defined = instrs
+        let definitions = instrs
             .iter()
-            .any(|instr| matches!(instr, Instruction::Label(_, l) if l == label));
-        if !is_defined {
-            return Err(MiddleEndError::UndeclaredIdentifier(name.to_owned()));
+            .filter(|instr| matches!(instr, Instruction::Label(_, l) if l == label))
+            .count();
+        match definitions {
+            0 => return Err(MiddleEndError::UndeclaredIdentifier(name.to_owned())),
+            1 => {}
+            _ => {
+                return Err(MiddleEndError::DuplicateIdentifierDeclaration(
+                    name.to_owned(),
+                ))
+            }
         }
     }
     Ok(())
-- 
2.43.0


From 560ad8acc1bbdcb09638057761ff644c45258353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 67/90] fix: a call with the wrong number of arguments is an
 error

---
 src/middle_end/ast_to_ir.rs        |  1 +
 src/middle_end/instructions.rs     | 23 +++++++++++++++++++++++
 src/middle_end/middle_end_error.rs |  1 +
 3 files changed, 25 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index aecedb6..c11bda3 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1101,6 +1101,7 @@ pub fn convert_expression_to_ir(
             let fun_id = fun_var.require_function_id()?;
             let dest_type = fun_var.get_function_return_type(prog)?;
             let param_types = fun_var.get_function_param_types(prog)?;
+            fun_var.require_function_arg_count(params.len(), prog)?;
 
             let mut param_srcs: Vec<Src> = Vec::new();
             for (param_i, param) in params.into_iter().enumerate() {
diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index c9d1dc4..e1c976b 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -113,6 +113,29 @@ impl Src {
         }
     }
 
+    /// Returns an error if the function can't be called with this number of arguments
+    pub fn require_function_arg_count(
+        &self,
+        arg_count: usize,
+        prog: &Program,
+    ) -> Result<(), MiddleEndError> {
+        match self {
+            Src::Fun(fun_id) => match prog.get_fun_type(fun_id)? {
+                IrType::Function(_, param_types, is_variadic) => {
+                    if arg_count == param_types.len()
+                        || (is_variadic && arg_count > param_types.len())
+                    {
+                        Ok(())
+                    } else {
+                        Err(MiddleEndError::WrongNumberOfArguments)
+                    }
+                }
+                _ => Err(MiddleEndError::UnwrapNonFunctionType),
+            },
+            _ => Err(MiddleEndError::UnwrapNonFunctionType),
+        }
+    }
+
     pub fn unwrap_var(&self) -> Result<VarId, MiddleEndError> {
         match self {
             Src::Var(var_id) | Src::StoreAddressVar(var_id) => Ok(var_id.to_owned()),
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index ff59194..831282c 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -43,6 +43,7 @@ pub enum MiddleEndError {
     /// in theory shouldn't happen
     TypeNotFound,
     FunctionNotFoundForId(FunId),
+    WrongNumberOfArguments,
     InvalidAssignment,
     AttemptToModifyNonLValue,
     UndefinedArraySize,
-- 
2.43.0


From 79234e7d6139d81278569922eb5152f677856aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 68/90] fix: only an lvalue that isn't an array can be assigned
 to

---
 src/middle_end/ast_to_ir.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index c11bda3..05317f6 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -831,6 +831,18 @@ fn convert_to_pointer_offset(
 
 /// the operand keeps its own type, and a pointer is stepped by the size of the object it
 /// points to. The result is the value of the operand after (prefix) or before (postfix) the step.
+/// Returns an error if the expression can't refer to an object that can be changed
+fn require_lvalue_expression(expr: &Expression) -> Result<(), MiddleEndError> {
+    match expr {
+        Expression::Identifier(_)
+        | Expression::Index(_, _)
+        | Expression::DirectMemberSelection(_, _)
+        | Expression::IndirectMemberSelection(_, _)
+        | Expression::UnaryOp(UnaryOperator::Dereference, _) => Ok(()),
+        _ => Err(MiddleEndError::AttemptToModifyNonLValue),
+    }
+}
+
 fn convert_increment_or_decrement_to_ir(
     expr: Expression,
     is_increment: bool,
@@ -838,6 +850,7 @@ fn convert_increment_or_decrement_to_ir(
     prog: &mut Program,
     context: &mut Context,
 ) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    require_lvalue_expression(&expr)?;
     context.directly_on_lhs_of_assignment = true;
     let (mut instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
     context.directly_on_lhs_of_assignment = false;
@@ -1298,6 +1311,7 @@ pub fn convert_expression_to_ir(
             convert_increment_or_decrement_to_ir(*expr, false, true, prog, context)
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
+            require_lvalue_expression(&expr)?;
             context.directly_on_lhs_of_assignment = true;
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
             context.directly_on_lhs_of_assignment = false;
@@ -2139,6 +2153,7 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::Assignment(dest_expr, src_expr) => {
+            require_lvalue_expression(&dest_expr)?;
             let (mut src_expr_instrs, mut src_var) =
                 convert_expression_to_ir(*src_expr, prog, context)?;
             instrs.append(&mut src_expr_instrs);
@@ -2163,6 +2178,9 @@ pub fn convert_expression_to_ir(
                 }
                 Src::Constant(_) | Src::Fun(_) => return Err(MiddleEndError::InvalidAssignment),
             }
+            if dest_var_type.is_array_type() {
+                return Err(MiddleEndError::InvalidAssignment);
+            }
 
             if src_var_type != dest_var_type {
                 let (mut convert_instrs, converted_var) =
@@ -2211,6 +2229,7 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::CompoundAssignment(op, dest_expr, src_expr) => {
+            require_lvalue_expression(&dest_expr)?;
             // dest op= src is dest = dest op src, but dest is only evaluated once
             context.directly_on_lhs_of_assignment = true;
             let (mut dest_instrs, dest_var) =
-- 
2.43.0


From 0b21b4c8acbefc735164ef1723498d198a0a1294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 69/90] fix: structs, unions and enums share a name space for
 their tags

---
 src/middle_end/context.rs           | 41 ++++++++++++++++++++++++++---
 src/middle_end/get_ast_type_info.rs |  5 +++-
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 725ad8f..60336f7 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -282,6 +282,21 @@ impl Context {
         }
     }
 
+    /// Returns an error if the tag is declared as one of another kind
+    pub fn require_tag_kind(&self, name: &str, kind: TagKind) -> Result<(), MiddleEndError> {
+        match self
+            .scope_stack
+            .iter()
+            .rev()
+            .find_map(|scope| scope.get_tag_kind(name))
+        {
+            Some(declared_kind) if declared_kind != kind => {
+                Err(MiddleEndError::DuplicateTypeDeclaration(name.to_owned()))
+            }
+            _ => Ok(()),
+        }
+    }
+
     pub fn add_enum_tag(&mut self, name: String) -> Result<(), MiddleEndError> {
         match self.scope_stack.last_mut() {
             None => Err(MiddleEndError::ScopeError),
@@ -495,6 +510,13 @@ impl Context {
     }
 }
 
+#[derive(Debug, PartialEq)]
+pub enum TagKind {
+    Struct,
+    Union,
+    Enum,
+}
+
 #[derive(Debug)]
 pub struct Scope {
     /// map identifiers to variables in the IR
@@ -583,8 +605,21 @@ impl Scope {
         Ok(())
     }
 
+    /// structs, unions and enums share a name space
+    fn get_tag_kind(&self, name: &str) -> Option<TagKind> {
+        if self.struct_tags.contains_key(name) {
+            Some(TagKind::Struct)
+        } else if self.union_tags.contains_key(name) {
+            Some(TagKind::Union)
+        } else if self.resolve_identifier_to_enum_tag(name) {
+            Some(TagKind::Enum)
+        } else {
+            None
+        }
+    }
+
     fn add_enum_tag(&mut self, name: String) -> Result<(), MiddleEndError> {
-        if self.enum_tags.contains(&name) {
+        if self.get_tag_kind(&name).is_some() {
             return Err(MiddleEndError::DuplicateTypeDeclaration(name));
         }
         self.enum_tags.push(name);
@@ -602,7 +637,7 @@ impl Scope {
     }
 
     fn add_struct_tag(&mut self, name: String, struct_id: StructId) -> Result<(), MiddleEndError> {
-        if self.struct_tags.contains_key(&name) {
+        if self.get_tag_kind(&name).is_some() {
             return Err(MiddleEndError::DuplicateTypeDeclaration(name));
         }
         self.struct_tags.insert(name, struct_id);
@@ -622,7 +657,7 @@ impl Scope {
     }
 
     fn add_union_tag(&mut self, name: String, union_id: UnionId) -> Result<(), MiddleEndError> {
-        if self.union_tags.contains_key(&name) {
+        if self.get_tag_kind(&name).is_some() {
             return Err(MiddleEndError::DuplicateTypeDeclaration(name));
         }
         self.union_tags.insert(name, union_id);
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 7ec8afc..8337cd7 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -6,7 +6,7 @@ use crate::front_end::ast::{
     UnionType as AstUnionType,
 };
 use crate::middle_end::compile_time_eval::eval_integral_constant_expression;
-use crate::middle_end::context::Context;
+use crate::middle_end::context::{Context, TagKind};
 use crate::middle_end::ir::Program;
 use crate::middle_end::ir_types::{
     array_to_pointer_type, EnumConstant, IrType, StructType, TypeSize, UnionType,
@@ -46,6 +46,7 @@ pub fn get_type_info(
         TypeSpecifier::Void => IrType::Void,
         TypeSpecifier::Struct(struct_type) => match struct_type {
             AstStructType::Declaration(Identifier(struct_name)) => {
+                context.require_tag_kind(struct_name, TagKind::Struct)?;
                 // check if this is referencing a previous struct declaration
                 match context.resolve_struct_tag_to_struct_id(struct_name) {
                     Ok(struct_id) => IrType::Struct(struct_id),
@@ -110,6 +111,7 @@ pub fn get_type_info(
         },
         TypeSpecifier::Union(union_type) => match union_type {
             AstUnionType::Declaration(Identifier(union_name)) => {
+                context.require_tag_kind(union_name, TagKind::Union)?;
                 // check if this is referencing a previous union declaration
                 match context.resolve_union_tag_to_union_id(union_name) {
                     Ok(union_id) => IrType::Union(union_id),
@@ -172,6 +174,7 @@ pub fn get_type_info(
         TypeSpecifier::Enum(enum_type) => {
             match enum_type {
                 EnumType::Declaration(Identifier(enum_name)) => {
+                    context.require_tag_kind(enum_name, TagKind::Enum)?;
                     context.resolve_identifier_to_enum_tag(enum_name)?;
                     // enums are just integers
                     IrType::I32
-- 
2.43.0


From 8a68d6012614fb9a372a246d90d15f4ea1f737dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 70/90] fix: an object must have a complete type

---
 src/middle_end/ast_to_ir.rs         |  4 ++++
 src/middle_end/get_ast_type_info.rs | 14 ++++++++++--
 src/middle_end/ir_types.rs          | 33 +++++++++++++++++++++++++++++
 src/middle_end/middle_end_error.rs  |  1 +
 4 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 05317f6..daf61e8 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -667,6 +667,7 @@ fn convert_statement_to_ir(
                     let param_var = prog.new_var(ValueType::LValue);
                     param_var_mappings.push(param_var.to_owned());
                     let param_type = array_to_pointer_type(param_type);
+                    param_type.require_complete_object_type(&prog.program_metadata)?;
                     context.add_variable_to_scope(
                         param_name,
                         param_var.to_owned(),
@@ -725,6 +726,7 @@ fn declare_variable(
     {
         return Ok((var, true));
     }
+    type_info.require_complete_object_type(&prog.program_metadata)?;
     let var = prog.new_var(ValueType::LValue);
     context.add_variable_to_scope(name, var.to_owned(), type_info.to_owned())?;
     prog.add_var_type(var.to_owned(), type_info.to_owned())?;
@@ -1532,6 +1534,7 @@ pub fn convert_expression_to_ir(
             };
             let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            expr_var_type.require_complete_object_type(&prog.program_metadata)?;
 
             let type_size = if let Some(byte_size) = string_literal_byte_size {
                 TypeSize::CompileTime(byte_size)
@@ -1564,6 +1567,7 @@ pub fn convert_expression_to_ir(
                 None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                 Some(x) => x,
             };
+            type_info.require_complete_object_type(&prog.program_metadata)?;
             let type_size = if type_info.is_array_type() {
                 type_info.get_array_byte_size(&prog.program_metadata)?
             } else {
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 8337cd7..a345423 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -291,6 +291,7 @@ fn add_type_info_from_declarator(
                     Err(_) => Some(TypeSize::Runtime(*size_expr)),
                 },
             };
+            type_info.require_complete_object_type(&prog.program_metadata)?;
             add_type_info_from_declarator(*d, type_info.wrap_with_array(size), prog, context)
         }
         Declarator::FunctionDeclarator(d, params) => {
@@ -306,6 +307,12 @@ fn add_type_info_from_declarator(
                 },
             };
 
+            // a function can't return an array or a function
+            if type_info.is_array_type() || matches!(type_info, IrType::Function(_, _, _)) {
+                return Err(MiddleEndError::InvalidFunctionDeclaration);
+            }
+
+            let param_count = param_decls.len();
             let mut param_types: Vec<IrType> = Vec::new();
             let mut param_bindings: FunctionParameterBindings = Vec::new();
             for p in param_decls {
@@ -315,8 +322,11 @@ fn add_type_info_from_declarator(
                         Some(x) => x,
                     };
                 // a single unnamed void parameter means the function has no parameters
-                if param_type == IrType::Void && param_name.is_none() {
-                    continue;
+                if param_type == IrType::Void {
+                    if param_name.is_none() && param_count == 1 {
+                        continue;
+                    }
+                    return Err(MiddleEndError::IncompleteType(param_type));
                 }
                 // an array parameter is a pointer
                 param_types.push(array_to_pointer_type(param_type.to_owned()));
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index b708845..1e2dacd 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -145,6 +145,37 @@ impl IrType {
         }
     }
 
+    /// Returns an error if there can't be objects of this type
+    pub fn require_complete_object_type(
+        &self,
+        prog: &ProgramMetadata,
+    ) -> Result<(), MiddleEndError> {
+        let is_complete = match self {
+            IrType::Void | IrType::Function(_, _, _) => false,
+            IrType::Struct(struct_id) => !prog.get_struct_type(struct_id)?.member_types.is_empty(),
+            IrType::Union(union_id) => !prog.get_union_type(union_id)?.member_types.is_empty(),
+            IrType::ArrayOf(_, None | Some(TypeSize::CompileTime(0))) => {
+                return Err(MiddleEndError::UndefinedArraySize)
+            }
+            IrType::ArrayOf(inner_type, _) => return inner_type.require_complete_object_type(prog),
+            _ => true,
+        };
+        if is_complete {
+            Ok(())
+        } else {
+            Err(MiddleEndError::IncompleteType(self.to_owned()))
+        }
+    }
+
+    /// Returns an error if there can't be a struct or union member of this type. Only its first
+    /// dimension may be unknown if it is an array
+    fn require_complete_member_type(&self, prog: &ProgramMetadata) -> Result<(), MiddleEndError> {
+        match self {
+            IrType::ArrayOf(inner_type, None) => inner_type.require_complete_object_type(prog),
+            member_type => member_type.require_complete_object_type(prog),
+        }
+    }
+
     pub fn wrap_with_pointer(self) -> Self {
         IrType::PointerTo(Box::new(self))
     }
@@ -477,6 +508,7 @@ impl StructType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateStructMember);
         }
+        member_type.require_complete_member_type(prog)?;
         let byte_size = match member_type.get_object_byte_size(prog)? {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedStructMemberSize),
@@ -600,6 +632,7 @@ impl UnionType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateUnionMember);
         }
+        member_type.require_complete_member_type(prog)?;
         let byte_size = match member_type.get_object_byte_size(prog)? {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedUnionMemberSize),
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index 831282c..36f511f 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -47,6 +47,7 @@ pub enum MiddleEndError {
     InvalidAssignment,
     AttemptToModifyNonLValue,
     UndefinedArraySize,
+    IncompleteType(IrType),
     ArrayMemberSizeNotKnownAtCompileTime,
     UndefinedStructMemberSize,
     UndefinedUnionMemberSize,
-- 
2.43.0


From 92a24a8ec87583acb32a1e1873939b19dfe815c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:46 +0000
Subject: [PATCH 71/90] fix: the cases of a switch have different integer
 constant values

---
 src/middle_end/ast_to_ir.rs        | 40 ++++++++++++++++++++++++++++++
 src/middle_end/context.rs          | 15 +++++++++++
 src/middle_end/middle_end_error.rs |  3 +++
 3 files changed, 58 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index daf61e8..545d658 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -9,6 +9,7 @@ use crate::front_end::ast::{
 use crate::middle_end::aggregate_type_initialisers::{
     array_initialiser, convert_string_literal_to_init_list_of_chars_ast, struct_initialiser,
 };
+use crate::middle_end::compile_time_eval::eval_integral_constant_expression;
 use crate::middle_end::context::{Context, IdentifierResolveResult, LoopContext, SwitchContext};
 use crate::middle_end::get_ast_type_info::get_type_info;
 use crate::middle_end::ids::{ValueType, VarId};
@@ -321,12 +322,26 @@ fn convert_statement_to_ir(
                     if !context.is_in_switch_context() {
                         return Err(MiddleEndError::CaseOutsideSwitchContext);
                     }
+                    if !is_constant_expression(&expr, context) {
+                        return Err(MiddleEndError::NonConstantCaseInSwitch);
+                    }
+                    let case_value =
+                        eval_integral_constant_expression(expr.to_owned(), context).ok();
                     let (mut condition_instrs, expr_var) =
                         convert_expression_to_ir(expr, prog, context)?;
                     let switch_var = context.get_switch_variable().unwrap();
                     // the case value is converted to the type of the switch value
                     let expr_type = expr_var.get_type(&prog.program_metadata)?;
+                    expr_type.require_integral_type()?;
                     let switch_type = prog.get_var_type(&switch_var)?;
+                    if let Some(value) = case_value {
+                        context.add_switch_case_value(match switch_type {
+                            IrType::I32 => value as i32 as i128,
+                            IrType::U32 => value as u32 as i128,
+                            IrType::U64 => value as u64 as i128,
+                            _ => value as i64 as i128,
+                        })?;
+                    }
                     let (mut convert_instrs, expr_var) =
                         convert_type_for_assignment(expr_var, expr_type, switch_type, prog)?;
                     condition_instrs.append(&mut convert_instrs);
@@ -785,6 +800,31 @@ fn convert_return_values_to_return_type(
     Ok(converted_instrs)
 }
 
+/// whether the value of an expression can't depend on anything that happens at run time
+fn is_constant_expression(expr: &Expression, context: &Context) -> bool {
+    match expr {
+        Expression::Constant(_) | Expression::SizeOfExpr(_) | Expression::SizeOfType(_) => true,
+        Expression::Identifier(Identifier(name)) => matches!(
+            context.resolve_identifier_to_var_or_const(name),
+            Ok(IdentifierResolveResult::EnumConst(_))
+        ),
+        Expression::UnaryOp(op, expr) => {
+            !matches!(op, UnaryOperator::AddressOf | UnaryOperator::Dereference)
+                && is_constant_expression(expr, context)
+        }
+        Expression::BinaryOp(_, left, right) => {
+            is_constant_expression(left, context) && is_constant_expression(right, context)
+        }
+        Expression::Ternary(cond, left, right) => {
+            is_constant_expression(cond, context)
+                && is_constant_expression(left, context)
+                && is_constant_expression(right, context)
+        }
+        Expression::Cast(_, expr) => is_constant_expression(expr, context),
+        _ => false,
+    }
+}
+
 /// the byte size of the object that a pointer points to
 fn get_pointer_object_byte_size_src(
     ptr_type: &IrType,
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 60336f7..8cc5870 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -138,6 +138,19 @@ impl Context {
         Err(MiddleEndError::CaseOutsideSwitchContext)
     }
 
+    /// the value of a case of the current switch, converted to the type of the switch value
+    pub fn add_switch_case_value(&mut self, value: i128) -> Result<(), MiddleEndError> {
+        for loop_or_switch_context in self.loop_stack.iter_mut().rev() {
+            if let LoopOrSwitchContext::Switch(switch_context) = loop_or_switch_context {
+                if !switch_context.case_values.insert(value) {
+                    return Err(MiddleEndError::DuplicateCaseInSwitch);
+                }
+                return Ok(());
+            }
+        }
+        Err(MiddleEndError::CaseOutsideSwitchContext)
+    }
+
     pub fn add_default_switch_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
         if self.loop_stack.is_empty() {
             return Err(MiddleEndError::DefaultOutsideSwitchContext);
@@ -719,6 +732,7 @@ pub struct SwitchContext {
     pub end_label: LabelId,
     pub switch_var: VarId,
     pub case_condition_instrs: Vec<Instruction>,
+    pub case_values: HashSet<i128>,
     pub default_block_label: Option<LabelId>,
 }
 
@@ -728,6 +742,7 @@ impl SwitchContext {
             end_label,
             switch_var,
             case_condition_instrs: Vec::new(),
+            case_values: HashSet::new(),
             default_block_label: None,
         }
     }
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index 36f511f..8c41d58 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -12,6 +12,9 @@ pub enum MiddleEndError {
     CaseOutsideSwitchContext,
     DefaultOutsideSwitchContext,
     MultipleDefaultCasesInSwitch,
+    NonConstantCaseInSwitch,
+    DuplicateCaseInSwitch,
+    InvalidReturnValue,
     /// in theory this should never occur
     LoopNestingError,
     UndeclaredIdentifier(String),
-- 
2.43.0


From 8b44bb611a5e2079cd6fbf7419a989975cffdaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:50 +0000
Subject: [PATCH 72/90] fix: a value is returned by the functions that return
 one, and no others

---
 src/middle_end/ast_to_ir.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 545d658..a7ffeb3 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -779,11 +779,16 @@ fn convert_return_values_to_return_type(
     prog: &mut Program,
 ) -> Result<Vec<Instruction>, MiddleEndError> {
     let return_type = match fun_type {
-        IrType::Function(return_type, _, _) if **return_type != IrType::Void => {
-            (**return_type).to_owned()
-        }
+        IrType::Function(return_type, _, _) => (**return_type).to_owned(),
         _ => return Ok(instrs),
     };
+    // there is a value to return if, and only if, the function returns one
+    if instrs.iter().any(|instr| match instr {
+        Instruction::Ret(_, value) => value.is_some() == (return_type == IrType::Void),
+        _ => false,
+    }) {
+        return Err(MiddleEndError::InvalidReturnValue);
+    }
     let mut converted_instrs = Vec::new();
     for instr in instrs {
         match instr {
-- 
2.43.0


From 297a65cd8b854837f39cc26733c9ac1eaf4f77a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:42 +0000
Subject: [PATCH 73/90] fix: two parameters with the same name are an error in
 a declaration too

---
 src/middle_end/get_ast_type_info.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index a345423..e13b68f 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -331,6 +331,9 @@ fn add_type_info_from_declarator(
                 // an array parameter is a pointer
                 param_types.push(array_to_pointer_type(param_type.to_owned()));
                 if let Some(name) = param_name {
+                    if param_bindings.iter().any(|(n, _)| *n == name) {
+                        return Err(MiddleEndError::DuplicateIdentifierDeclaration(name));
+                    }
                     param_bindings.push((name, param_type));
                 }
             }
-- 
2.43.0


From 0b7b56c5de68098d9ce3e3e299e81e008d407bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:42 +0000
Subject: [PATCH 74/90] fix: a function can't be defined inside another
 function

---
 src/middle_end/ast_to_ir.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index a7ffeb3..3ae3057 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -664,6 +664,9 @@ fn convert_statement_to_ir(
             }
         }
         Statement::FunctionDeclaration(sq, decl, body) => {
+            if !context.is_in_global_scope() {
+                return Err(MiddleEndError::InvalidFunctionDeclaration);
+            }
             let (type_info, name, param_bindings) =
                 match get_type_info(&sq, Some(decl), false, prog, context)? {
                     None => return Err(MiddleEndError::InvalidTypedefDeclaration),
-- 
2.43.0


From 796eefe0d218ac8ec6ee46c7e45a1decea4753de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:42 +0000
Subject: [PATCH 75/90] fix: the size of a global array must be constant

---
 src/middle_end/ast_to_ir.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 3ae3057..244ebd8 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1005,6 +1005,9 @@ fn keep_runtime_array_sizes(
 ) -> Result<IrType, MiddleEndError> {
     match type_info {
         IrType::ArrayOf(inner_type, Some(TypeSize::Runtime(size_expr))) => {
+            if context.is_in_global_scope() && !is_constant_expression(&size_expr, context) {
+                return Err(MiddleEndError::UndefinedArraySize);
+            }
             let (mut size_expr_instrs, size_src) = convert_expression_to_ir(size_expr, prog, context)?;
             instrs.append(&mut size_expr_instrs);
             let size_type = size_src.get_type(&prog.program_metadata)?;
-- 
2.43.0


From 1667e4610574469283665815c5c96df243f6ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 76/90] fix: pointers to different types can't be subtracted

---
 src/middle_end/ast_to_ir.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 244ebd8..a28caaa 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1812,7 +1812,6 @@ pub fn convert_expression_to_ir(
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
                     let right_var_type = right_var.get_type(&prog.program_metadata)?;
                     // must be either arithmetic - arithmetic, or pointer - integer, or pointer - pointer
-                    // todo check for pointers being compatible types
                     if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
                         && !(left_var_type.is_object_pointer_type()
                             && right_var_type.is_integral_type())
@@ -1845,6 +1844,19 @@ pub fn convert_expression_to_ir(
                         ));
                         left_var = Src::Var(temp_left_var);
                     } else {
+                        // the pointers must point to the same type. (Array types can be
+                        // compatible without being equal)
+                        if let (IrType::PointerTo(left_inner), IrType::PointerTo(right_inner)) =
+                            (&left_var_type, &right_var_type)
+                        {
+                            if left_inner != right_inner
+                                && !(left_inner.is_array_type() && right_inner.is_array_type())
+                            {
+                                return Err(MiddleEndError::InvalidOperation(
+                                    "Subtracting pointers to different types",
+                                ));
+                            }
+                        }
                         // pointer - pointer -> int, the number of objects between them
                         let byte_difference = prog.new_var(ValueType::RValue);
                         prog.add_var_type(byte_difference.to_owned(), IrType::I32)?;
-- 
2.43.0


From ec17ac24addf887301e1561beea47e8510075f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 77/90] fix: a variable can be used when a jump enters its
 scope past its declaration

---
 src/back_end/dataflow_analysis.rs                 |  2 +-
 .../stack_allocation/get_vars_from_block.rs       | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/back_end/dataflow_analysis.rs b/src/back_end/dataflow_analysis.rs
index 79d462e..bb869a1 100644
--- a/src/back_end/dataflow_analysis.rs
+++ b/src/back_end/dataflow_analysis.rs
@@ -1,5 +1,5 @@
 pub mod clash_graph;
 pub mod dead_code_analysis;
 pub mod flowgraph;
-mod instruction_def_ref;
+pub mod instruction_def_ref;
 pub mod live_variable_analysis;
diff --git a/src/back_end/stack_allocation/get_vars_from_block.rs b/src/back_end/stack_allocation/get_vars_from_block.rs
index 668616a..dbf0ffc 100644
--- a/src/back_end/stack_allocation/get_vars_from_block.rs
+++ b/src/back_end/stack_allocation/get_vars_from_block.rs
@@ -1,9 +1,10 @@
 use std::collections::HashMap;
 
+use crate::back_end::dataflow_analysis::instruction_def_ref::ref_set;
 use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::Instruction;
 use crate::middle_end::ir::ProgramMetadata;
-use crate::middle_end::ir_types::IrType;
+use crate::middle_end::ir_types::{IrType, TypeSize};
 use crate::relooper::blocks::Block;
 
 pub fn get_vars_from_block(
@@ -61,6 +62,18 @@ fn get_vars_from_instrs(
     let mut vars = HashMap::new();
 
     for instr in instrs {
+        // a variable whose declaration is unreachable can still be used, if its scope is
+        // entered by a jump past the declaration
+        for var in ref_set(instr) {
+            if prog_metadata.is_var_the_null_dest(&var) {
+                continue;
+            }
+            if let Ok(var_type) = prog_metadata.get_var_type(&var) {
+                if let TypeSize::CompileTime(_) = var_type.get_byte_size(prog_metadata) {
+                    vars.insert(var, var_type);
+                }
+            }
+        }
         match instr {
             Instruction::SimpleAssignment(_, dest, _)
             | Instruction::LoadFromAddress(_, dest, _)
-- 
2.43.0


From dcad400abce322eead57cdfc1556783584655921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:10 +0000
Subject: [PATCH 78/90] fix: an array of known size is allocated once for each
 call of its function

---
 src/middle_end/ast_to_ir.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index a28caaa..c7b691d 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -719,6 +719,7 @@ fn convert_statement_to_ir(
             check_all_named_labels_are_defined_once(&instrs, prog)?;
             prog.program_metadata.label_ids.clear();
             let instrs = convert_return_values_to_return_type(instrs, &type_info, prog)?;
+            let instrs = allocate_arrays_at_start_of_function(instrs);
             // update function in program with full body
             let fun = Function::new(instrs, type_info, param_var_mappings);
             prog.new_fun_body(name, fun)?;
@@ -775,6 +776,19 @@ fn check_all_named_labels_are_defined_once(
     Ok(())
 }
 
+/// Arrays of a known size are allocated once for each call of the function, rather than each time
+/// their declaration is reached: the declaration may be in a loop, or be jumped over.
+fn allocate_arrays_at_start_of_function(instrs: Vec<Instruction>) -> Vec<Instruction> {
+    let (mut allocations, mut rest): (Vec<_>, Vec<_>) = instrs.into_iter().partition(|instr| {
+        matches!(
+            instr,
+            Instruction::AllocateVariable(_, _, Src::Constant(_))
+        )
+    });
+    allocations.append(&mut rest);
+    allocations
+}
+
 /// a returned value is converted, as if by assignment, to the return type of the function
 fn convert_return_values_to_return_type(
     instrs: Vec<Instruction>,
-- 
2.43.0


From 3751e526fe45df1d25d267af1c906b37c86a9932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:43 +0000
Subject: [PATCH 79/90] fix: a declaration isn't a statement, and a statement
 isn't a declaration

---
 src/front_end/c_parser.lalrpop | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index ecb220a..9b1f834 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -172,7 +172,7 @@ CharConstant: char = "CharConstant" => interpret_string(&<>).unwrap().chars().nt
 
 // STATEMENTS -------------------------------
 
-pub Program: ast::StatementList = <Statement+> => ast::StatementList(<>);
+pub Program: ast::StatementList = <Declaration+> => ast::StatementList(<>);
 
 pub Statement: ast::Statement = {
   OpenStatement,
@@ -202,7 +202,6 @@ ClosedStatement: ast::Statement = {
   "switch" "(" <e:Expression> ")" <s:ClosedStatement> => ast::Statement::Switch(e, Box::new(s)),
   Block,
   <Expression> ";" => ast::Statement::Expr(<>),
-  <Declaration>,
   "case" <e:ConditionalExpression> ":" <s:ClosedStatement> => ast::Statement::Labelled(ast::LabelledStatement::Case(e, Box::new(s))),
   "default" ":" <ClosedStatement> => ast::Statement::Labelled(ast::LabelledStatement::Default(Box::new(<>))),
   <i:Identifier> ":" <s:ClosedStatement> => ast::Statement::Labelled(ast::LabelledStatement::Named(i, Box::new(s))),
@@ -210,7 +209,12 @@ ClosedStatement: ast::Statement = {
 };
 
 Block: ast::Statement = {
-  "{" <Statement*> "}" => ast::Statement::Block(<>),
+  "{" <BlockItem*> "}" => ast::Statement::Block(<>),
+};
+
+BlockItem: ast::Statement = {
+  Statement,
+  Declaration,
 };
 
 // for for statements, where the first expression can be either an expression
-- 
2.43.0


From 6fc840706c768cd895cb5a5ea1cc8fb80f67f822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:30 +0000
Subject: [PATCH 80/90] fix: an unterminated literal is an error

---
 src/front_end/lexer.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index cca853c..a3e983a 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -248,6 +248,7 @@ impl<'input> Iterator for Lexer<'input> {
                     return match fsm.state {
                         // EOF
                         State::Start => None,
+                        _ if fsm.is_inside_literal() => Some(Err(LexError::InvalidEOF)),
                         _ => match fsm.token {
                             Some(t) => Some(Ok((start.unwrap(), t, end.unwrap() + 1))),
                             None => Some(Err(LexError::InvalidEOF)),
@@ -264,7 +265,12 @@ impl<'input> Iterator for Lexer<'input> {
                 start = Some(i.to_owned());
             }
             end = Some(i.to_owned());
-            let current_token = fsm.token.to_owned();
+            // a literal isn't a token before its closing quote
+            let current_token = if fsm.is_inside_literal() {
+                None
+            } else {
+                fsm.token.to_owned()
+            };
             let new_state = fsm.step(c.to_owned(), &self.typedef_names);
             match new_state {
                 Some(f) => {
@@ -482,6 +488,25 @@ impl Fsm {
         }
     }
 
+    /// in a string literal or char constant, of which the closing quote hasn't been reached
+    fn is_inside_literal(&self) -> bool {
+        matches!(
+            self.state,
+            State::String1
+                | State::String2
+                | State::String3
+                | State::Char1
+                | State::Char2
+                | State::Char3
+                | State::Char4
+                | State::Char5
+                | State::Char6
+                | State::Char7
+                | State::Char8
+                | State::Char9
+        )
+    }
+
     fn step(self, input: char, typedef_names: &[String]) -> Option<Self> {
         match self.state {
             State::Start => match input {
@@ -1028,6 +1053,8 @@ impl Fsm {
                     state: State::String4,
                     token: Some(Token::StringLiteral("".to_owned())),
                 }),
+                // a literal is on one line
+                '\n' => None,
                 c => Some(Fsm {
                     state: State::String3,
                     token: Some(Token::StringLiteral(c.to_string())),
@@ -1058,6 +1085,7 @@ impl Fsm {
                     }),
                     _ => None,
                 },
+                '\n' => None,
                 c => match self.token {
                     Some(Token::StringLiteral(mut s)) => {
                         s.push(c);
@@ -1076,7 +1104,7 @@ impl Fsm {
                     token: Some(Token::CharConstant("\\".to_owned())),
                 }),
                 // empty char constant isn't allowed
-                '\'' => None,
+                '\'' | '\n' => None,
                 c => Some(Fsm {
                     state: State::Char9,
                     token: Some(Token::CharConstant(c.to_string())),
-- 
2.43.0


From 895dddf28c05f9f398d45ab43f5105ec5bfde734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:59 +0000
Subject: [PATCH 81/90] fix: a type specifier can't be repeated

---
 src/front_end/ast.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index abc9808..ed6a14c 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -601,16 +601,23 @@ impl ArithmeticType {
         let mut bitfield = 0;
         for t in types {
             match t {
-                TypeSpecifierToken::ArithmeticType(at) => match at {
-                    ArithmeticTypeSpecifierToken::Char => bitfield |= 0b1,
-                    ArithmeticTypeSpecifierToken::Short => bitfield |= 0b10,
-                    ArithmeticTypeSpecifierToken::Int => bitfield |= 0b100,
-                    ArithmeticTypeSpecifierToken::Long => bitfield |= 0b1000,
-                    ArithmeticTypeSpecifierToken::Signed => bitfield |= 0b1_0000,
-                    ArithmeticTypeSpecifierToken::Unsigned => bitfield |= 0b10_0000,
-                    ArithmeticTypeSpecifierToken::Float => bitfield |= 0b100_0000,
-                    ArithmeticTypeSpecifierToken::Double => bitfield |= 0b1000_0000,
-                },
+                TypeSpecifierToken::ArithmeticType(at) => {
+                    let bit = match at {
+                        ArithmeticTypeSpecifierToken::Char => 0b1,
+                        ArithmeticTypeSpecifierToken::Short => 0b10,
+                        ArithmeticTypeSpecifierToken::Int => 0b100,
+                        ArithmeticTypeSpecifierToken::Long => 0b1000,
+                        ArithmeticTypeSpecifierToken::Signed => 0b1_0000,
+                        ArithmeticTypeSpecifierToken::Unsigned => 0b10_0000,
+                        ArithmeticTypeSpecifierToken::Float => 0b100_0000,
+                        ArithmeticTypeSpecifierToken::Double => 0b1000_0000,
+                    };
+                    // long long is the same type as long
+                    if bitfield & bit != 0 && bit != 0b1000 {
+                        return Err(AstError::InvalidTypeDeclaration("Repeated type specifier"));
+                    }
+                    bitfield |= bit;
+                }
                 TypeSpecifierToken::Void
                 | TypeSpecifierToken::Struct(_)
                 | TypeSpecifierToken::Union(_)
-- 
2.43.0


From f177871c1fb4eb887e1b35496afed12905fe5fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:59 +0000
Subject: [PATCH 82/90] fix: an enum has at least one constant

---
 src/middle_end/get_ast_type_info.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index e13b68f..1b84ec8 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -189,6 +189,9 @@ pub fn get_type_info(
                             context.add_enum_tag(enum_name.to_owned())?;
                         }
                     }
+                    if enum_constants.is_empty() {
+                        return Err(MiddleEndError::InvalidDeclaration);
+                    }
                     if !skip_constant_definition {
                         // there is no next value if the last one was the largest possible
                         let mut next_constant_value = Some(0);
-- 
2.43.0


From bfdfed0cbdf5d343d515fc61a7b58c4d4fb15e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:59 +0000
Subject: [PATCH 83/90] fix: only a function has a body

---
 src/middle_end/ast_to_ir.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index c7b691d..184fd72 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -676,6 +676,9 @@ fn convert_statement_to_ir(
                 None => return Err(MiddleEndError::InvalidFunctionDeclaration),
                 Some(n) => n,
             };
+            if !matches!(type_info, IrType::Function(..)) {
+                return Err(MiddleEndError::InvalidFunctionDeclaration);
+            }
             context.push_scope();
             // for each parameter, store which var it maps to
             let mut param_var_mappings: Vec<VarId> = Vec::new();
-- 
2.43.0


From 222b032bcae86d0975a671b94d3bc9ff1a4207a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:59 +0000
Subject: [PATCH 84/90] fix: a function that is hidden by a local variable
 can't be called

---
 src/middle_end/context.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 8cc5870..cb2b61a 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -476,6 +476,15 @@ impl Context {
         &self,
         identifier_name: &str,
     ) -> Result<FunId, MiddleEndError> {
+        // a local variable or enum constant hides a function with the same name
+        if self
+            .resolve_identifier_to_var_or_const(identifier_name)
+            .is_ok()
+        {
+            return Err(MiddleEndError::UndeclaredIdentifier(
+                identifier_name.to_owned(),
+            ));
+        }
         match self.function_names.get(identifier_name) {
             Some(fun_id) => Ok(fun_id.to_owned()),
             None => Err(MiddleEndError::UndeclaredIdentifier(
-- 
2.43.0


From ec1c2c539c47fec2986644fb71274fbe8c4d0a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 85/90] fix: a condition is a scalar, and an array is a pointer
 to its first member there

---
 src/middle_end/ast_to_ir.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 184fd72..8b07249 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -96,7 +96,7 @@ fn convert_statement_to_ir(
                 loop_end_label.to_owned(),
             ));
             // while condition
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // jump out of loop if condition false
             instrs.push(Instruction::BrIfEq(
@@ -131,7 +131,7 @@ fn convert_statement_to_ir(
             // continue label
             instrs.push(Instruction::Label(prog.new_instr_id(), loop_continue_label));
             // loop condition
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // jump back to start of loop if condition true
 
@@ -187,7 +187,7 @@ fn convert_statement_to_ir(
                     Src::Var(temp)
                 }
                 Some(e) => {
-                    let (mut expr_instrs, expr_var) = convert_expression_to_ir(e, prog, context)?;
+                    let (mut expr_instrs, expr_var) = convert_condition_to_ir(e, prog, context)?;
                     instrs.append(&mut expr_instrs);
                     expr_var
                 }
@@ -219,7 +219,7 @@ fn convert_statement_to_ir(
         }
         Statement::If(cond, body) => {
             // if statement condition
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // if condition is false, jump to after body
             let if_end_label = prog.new_label();
@@ -235,7 +235,7 @@ fn convert_statement_to_ir(
             instrs.push(Instruction::Label(prog.new_instr_id(), if_end_label));
         }
         Statement::IfElse(cond, true_body, false_body) => {
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // if condition is false, jump to else body
             let else_label = prog.new_label();
@@ -898,6 +898,24 @@ fn convert_to_pointer_offset(
 
 /// the operand keeps its own type, and a pointer is stepped by the size of the object it
 /// points to. The result is the value of the operand after (prefix) or before (postfix) the step.
+/// the controlling expression of a statement, or of a conditional expression
+fn convert_condition_to_ir(
+    expr: Expression,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let (mut instrs, mut condition) = convert_expression_to_ir(expr, prog, context)?;
+    let condition_type = condition.get_type(&prog.program_metadata)?;
+    if condition_type.is_array_type() {
+        let (mut convert_instrs, pointer) = unary_convert(condition, prog)?;
+        instrs.append(&mut convert_instrs);
+        condition = pointer;
+    } else {
+        condition_type.require_scalar_type()?;
+    }
+    Ok((instrs, condition))
+}
+
 /// Returns an error if the expression can't refer to an object that can be changed
 fn require_lvalue_expression(expr: &Expression) -> Result<(), MiddleEndError> {
     match expr {
@@ -2149,7 +2167,7 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::Ternary(cond, true_expr, false_expr) => {
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(*cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(*cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             let dest = prog.new_var(ValueType::RValue);
             let false_label = prog.new_label();
-- 
2.43.0


From cf6881eba41378e8124f0f503432196f24388145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 86/90] fix: the constraints on the operands of a conditional
 expression

---
 src/middle_end/ast_to_ir.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 8b07249..a09d9e5 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -2207,6 +2207,21 @@ pub fn convert_expression_to_ir(
                 return Ok((instrs, Src::Var(dest)));
             }
 
+            // the other operands either both have arithmetic type, both are pointers (or one is a
+            // pointer and the other an integer), or both have the same type
+            let is_null_pointer = |var_type: &IrType, is_null| {
+                is_null || var_type.is_pointer_type() || var_type.is_integral_type()
+            };
+            if !(true_var_type.is_arithmetic_type() && false_var_type.is_arithmetic_type())
+                && !(is_null_pointer(&true_var_type, true_is_null)
+                    && is_null_pointer(&false_var_type, false_is_null))
+                && (true_var_type != false_var_type || true_var_type == IrType::Void)
+            {
+                return Err(MiddleEndError::InvalidOperation(
+                    "Invalid conditional expression operand types",
+                ));
+            }
+
             let mut false_binary_convert_instrs = Vec::new();
             if true_is_null && false_var_type.is_pointer_type() {
                 // a null pointer constant has the type of the other operand
-- 
2.43.0


From c35bed3ffb5dd2a55370b58fa63dda33045b9e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:31 +0000
Subject: [PATCH 87/90] fix: an array can be cast, as a pointer to its first
 member, and a structure can't be

---
 src/middle_end/ast_to_ir.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index a09d9e5..3380db4 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -2399,8 +2399,17 @@ pub fn convert_expression_to_ir(
                 prog.add_var_type(dest.to_owned(), IrType::Void)?;
                 return Ok((instrs, Src::Var(dest)));
             }
+            // an array is a pointer to its first member
+            let mut expr_var = expr_var;
+            if expr_var.get_type(&prog.program_metadata)?.is_array_type() {
+                let (mut convert_instrs, pointer) = unary_convert(expr_var, prog)?;
+                instrs.append(&mut convert_instrs);
+                expr_var = pointer;
+            }
             // get conversion instrs into cast type
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            cast_type.require_scalar_type()?;
+            expr_var_type.require_scalar_type()?;
             let (mut cast_instrs, dest) =
                 get_type_conversion_instrs(expr_var, expr_var_type, cast_type, prog)?;
             instrs.append(&mut cast_instrs);
-- 
2.43.0


From d7d51983b6ed4b963a9175dafd82f44c8362abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:36 +0000
Subject: [PATCH 88/90] fix: an identifier declared as a function can't be
 declared again in the same block

---
 src/middle_end/ast_to_ir.rs | 20 ++++++++++----------
 src/middle_end/context.rs   | 19 ++++++++++++++++---
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 3380db4..19c1021 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -679,6 +679,16 @@ fn convert_statement_to_ir(
             if !matches!(type_info, IrType::Function(..)) {
                 return Err(MiddleEndError::InvalidFunctionDeclaration);
             }
+            // add function to context and prog before converting body, because might be recursive
+            let fun_declaration = Function::declaration(type_info.to_owned());
+            let fun_id = prog.new_fun_declaration(name.to_owned(), fun_declaration)?;
+            // a function can only be defined once
+            if let Some(fun) = prog.program_instructions.functions.get(&fun_id) {
+                if fun.body_is_defined {
+                    return Err(MiddleEndError::DuplicateFunctionDeclaration(name));
+                }
+            }
+            context.add_function_declaration(name.to_owned(), fun_id)?;
             context.push_scope();
             // for each parameter, store which var it maps to
             let mut param_var_mappings: Vec<VarId> = Vec::new();
@@ -697,16 +707,6 @@ fn convert_statement_to_ir(
                     prog.add_var_type(param_var, param_type)?;
                 }
             }
-            // add function to context and prog before converting body, because might be recursive
-            let fun_declaration = Function::declaration(type_info.to_owned());
-            let fun_id = prog.new_fun_declaration(name.to_owned(), fun_declaration)?;
-            // a function can only be defined once
-            if let Some(fun) = prog.program_instructions.functions.get(&fun_id) {
-                if fun.body_is_defined {
-                    return Err(MiddleEndError::DuplicateFunctionDeclaration(name));
-                }
-            }
-            context.add_function_declaration(name.to_owned(), fun_id)?;
             // function body instructions
             // the body is in the same scope as the parameters
             let mut instrs = Vec::new();
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index cb2b61a..d9fcaa4 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -457,6 +457,7 @@ impl Context {
         if let Ok(existing_fun_id) = self.resolve_identifier_to_fun(&name) {
             // if mapping already exists, don't do anything
             if existing_fun_id == fun_id {
+                self.add_function_to_scope(name);
                 return Ok(());
             }
             return Err(MiddleEndError::DuplicateFunctionDeclaration(name));
@@ -468,10 +469,17 @@ impl Context {
         {
             return Err(MiddleEndError::DuplicateIdentifierDeclaration(name));
         }
-        self.function_names.insert(name, fun_id);
+        self.function_names.insert(name.to_owned(), fun_id);
+        self.add_function_to_scope(name);
         Ok(())
     }
 
+    fn add_function_to_scope(&mut self, name: String) {
+        if let Some(scope) = self.scope_stack.last_mut() {
+            scope.declared_functions.insert(name);
+        }
+    }
+
     pub fn resolve_identifier_to_fun(
         &self,
         identifier_name: &str,
@@ -555,6 +563,8 @@ pub struct Scope {
     struct_tags: HashMap<String, StructId>,
     /// List of the names of union types that are declared
     union_tags: HashMap<String, UnionId>,
+    /// The names of the functions that are declared in this scope
+    declared_functions: HashSet<String>,
 }
 
 impl Scope {
@@ -567,6 +577,7 @@ impl Scope {
             enum_tags: Vec::new(),
             struct_tags: HashMap::new(),
             union_tags: HashMap::new(),
+            declared_functions: HashSet::new(),
         }
     }
 
@@ -576,7 +587,9 @@ impl Scope {
         var: VarId,
         type_info: IrType,
     ) -> Result<(), MiddleEndError> {
-        if self.is_ordinary_identifier(&identifier_name) {
+        if self.is_ordinary_identifier(&identifier_name)
+            || self.declared_functions.contains(&identifier_name)
+        {
             return Err(MiddleEndError::DuplicateIdentifierDeclaration(
                 identifier_name,
             ));
@@ -619,7 +632,7 @@ impl Scope {
         if self.enum_constants.contains_key(&name) {
             return Err(MiddleEndError::DuplicateEnumConstantDeclaration(name));
         }
-        if self.variable_names.contains_key(&name) {
+        if self.variable_names.contains_key(&name) || self.declared_functions.contains(&name) {
             return Err(MiddleEndError::DuplicateIdentifierDeclaration(name));
         }
         trace!("Setting enum constant {} = {}", name, value);
-- 
2.43.0


From 0c0e34c2d9593ba3668e8cac2dd0bc27b03a0fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:58 +0000
Subject: [PATCH 89/90] fix: an expression statement whose value is a structure
 compiles also when it is a dereferenced pointer

---
 src/middle_end/ast_to_ir.rs | 42 +++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 19c1021..f8abbd8 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -156,7 +156,8 @@ fn convert_statement_to_ir(
                 None => {}
                 Some(e_or_d) => match e_or_d {
                     ExpressionOrDeclaration::Expression(e) => {
-                        let (mut expr_instrs, _) = convert_expression_to_ir(e, prog, context)?;
+                        let mut expr_instrs =
+                            convert_discarded_expression_to_ir(e, prog, context)?;
                         instrs.append(&mut expr_instrs);
                     }
                     ExpressionOrDeclaration::Declaration(d) => {
@@ -206,7 +207,7 @@ fn convert_statement_to_ir(
             match end {
                 None => {}
                 Some(e) => {
-                    let (mut expr_instrs, _) = convert_expression_to_ir(e, prog, context)?;
+                    let mut expr_instrs = convert_discarded_expression_to_ir(e, prog, context)?;
                     instrs.append(&mut expr_instrs);
                 }
             }
@@ -369,7 +370,7 @@ fn convert_statement_to_ir(
             }
         }
         Statement::Expr(e) => {
-            let (mut expr_instrs, _) = convert_expression_to_ir(e, prog, context)?;
+            let mut expr_instrs = convert_discarded_expression_to_ir(e, prog, context)?;
             instrs.append(&mut expr_instrs);
         }
         Statement::Declaration(sq, declarators) => {
@@ -1012,6 +1013,38 @@ fn convert_increment_or_decrement_to_ir(
     ))
 }
 
+/// convert an expression whose value isn't used
+fn convert_discarded_expression_to_ir(
+    expr: Expression,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<Vec<Instruction>, MiddleEndError> {
+    let (mut instrs, value) = convert_expression_to_ir(expr, prog, context)?;
+    discard_structure(&mut instrs, &value, prog)?;
+    Ok(instrs)
+}
+
+/// a structure that isn't used isn't loaded either, because it can't be loaded as a whole
+fn discard_structure(
+    instrs: &mut Vec<Instruction>,
+    value: &Src,
+    prog: &Program,
+) -> Result<(), MiddleEndError> {
+    if let (Some(Instruction::LoadFromAddress(_, dest, _)), Src::Var(value)) =
+        (instrs.last(), value)
+    {
+        if dest == value
+            && prog
+                .program_metadata
+                .get_var_type(value)?
+                .is_struct_or_union_type()
+        {
+            instrs.pop();
+        }
+    }
+    Ok(())
+}
+
 /// load the object that ptr points to. An array isn't loaded, because it is represented by a
 /// pointer to its first member
 fn load_object_from_address(
@@ -2395,6 +2428,7 @@ pub fn convert_expression_to_ir(
                 };
             // a cast to void discards the value
             if cast_type == IrType::Void {
+                discard_structure(&mut instrs, &expr_var, prog)?;
                 let dest = prog.new_var(ValueType::RValue);
                 prog.add_var_type(dest.to_owned(), IrType::Void)?;
                 return Ok((instrs, Src::Var(dest)));
@@ -2417,7 +2451,7 @@ pub fn convert_expression_to_ir(
         }
         Expression::ExpressionList(left, right) => {
             // the value of the left expression is discarded
-            let (mut left_instrs, _) = convert_expression_to_ir(*left, prog, context)?;
+            let mut left_instrs = convert_discarded_expression_to_ir(*left, prog, context)?;
             instrs.append(&mut left_instrs);
             let (mut right_instrs, right_var) = convert_expression_to_ir(*right, prog, context)?;
             instrs.append(&mut right_instrs);
-- 
2.43.0


From fc0be58b13d7c71ee0c818e2f72fc1b0a8793f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:02 +0000
Subject: [PATCH 90/90] fix: multiply large unsigned constants without overflow

18446744073709551615 * 18446744073709551615 was rejected as an invalid
constant expression, because the product doesn't fit into 128 bits.
---
 src/middle_end/compile_time_eval.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 4664f41..9028178 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -223,7 +223,9 @@ fn eval_unconverted(
             match op {
                 BinaryOperator::Mult => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        checked(l.checked_mul(r))
+                        // the product of two 64 bit values can be too large for 128 bits, but only
+                        // its low bits are needed
+                        Ok(ConstantExpressionType::Int(l.wrapping_mul(r)))
                     }
                     (ConstantExpressionType::Float(f), ConstantExpressionType::Int(i))
                     | (ConstantExpressionType::Int(i), ConstantExpressionType::Float(f)) => {
-- 
2.43.0

