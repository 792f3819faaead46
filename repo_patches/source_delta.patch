From 5955e8e1173ef386c64148140a57d12e95c05454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:16 +0000
Subject: [PATCH 01/12] fix: report malformed enum tags in a bundle as
 InvalidData instead of panicking

---
 core/src/bundle.rs     | 3 ++-
 core/src/definition.rs | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/bundle.rs b/core/src/bundle.rs
index e8e1130..1b8dc33 100644
--- a/core/src/bundle.rs
+++ b/core/src/bundle.rs
@@ -575,7 +575,8 @@ pub enum DefinitionType {
 
 impl Decode for DefinitionType {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(DefinitionType::from_bytes(input.decode()?).expect("Invalid DefinitionType enum value"))
+        DefinitionType::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid DefinitionType enum value"))
     }
 }
 
diff --git a/core/src/definition.rs b/core/src/definition.rs
index 9e9be69..b2c3d5b 100644
--- a/core/src/definition.rs
+++ b/core/src/definition.rs
@@ -38,7 +38,9 @@ impl Definition {
             DefinitionType::Class => AnyDefinition::Class(input.decode()?),
             DefinitionType::EnumValue => AnyDefinition::EnumValue(input.decode()?),
             DefinitionType::Enum => AnyDefinition::Enum(input.decode()?),
-            DefinitionType::BitField => panic!("Bit field not supported"),
+            DefinitionType::BitField => {
+                return Err(io::Error::new(io::ErrorKind::InvalidData, "Bit field not supported"));
+            }
             DefinitionType::Function => AnyDefinition::Function(input.decode()?),
             DefinitionType::Parameter => AnyDefinition::Parameter(input.decode()?),
             DefinitionType::Local => AnyDefinition::Local(input.decode()?),
@@ -485,7 +487,7 @@ impl Decode for Type {
             4 => Ok(Type::Array(input.decode()?)),
             5 => Ok(Type::StaticArray(input.decode()?, input.decode()?)),
             6 => Ok(Type::ScriptRef(input.decode()?)),
-            _ => panic!("Unknown Type enum value {}", tag),
+            _ => Err(io::Error::new(io::ErrorKind::InvalidData, format!("Unknown Type enum value {tag}"))),
         }
     }
 }
@@ -761,7 +763,8 @@ impl Display for Visibility {
 
 impl Decode for Visibility {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(Visibility::from_bytes(input.decode()?).expect("Invalid Visibility enum value"))
+        Visibility::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid Visibility enum value"))
     }
 }
 
-- 
2.43.0


From 367afab9bba476d1d2c2c2a26cff88c7f3bce03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:16 +0000
Subject: [PATCH 02/12] fix: flush the output when saving a bundle so that
 write errors are reported

---
 core/src/bundle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/bundle.rs b/core/src/bundle.rs
index 1b8dc33..41e887e 100644
--- a/core/src/bundle.rs
+++ b/core/src/bundle.rs
@@ -34,7 +34,7 @@ impl ScriptBundle {
 
         output.seek(io::SeekFrom::Start(0))?;
         output.encode(&header)?;
-        Ok(())
+        output.flush()
     }
 }
 
-- 
2.43.0


From 15a7ff7a3242d2d5c4f8c2b226e635ea8231b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:16 +0000
Subject: [PATCH 03/12] fix: print 64-bit unsigned constants with the suffix
 that reads back as 64-bit

---
 decompiler/src/print.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index ef3f9b2..1bd0223 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -259,7 +259,7 @@ fn write_expr_nested<W: Write>(
             Constant::I32(lit) => write!(out, "{}", lit)?,
             Constant::I64(lit) => write!(out, "{}l", lit)?,
             Constant::U32(lit) => write!(out, "{}u", lit)?,
-            Constant::U64(lit) => write!(out, "{}u", lit)?,
+            Constant::U64(lit) => write!(out, "{}ul", lit)?,
             Constant::F32(lit) => write!(out, "{:.2}", lit)?,
             Constant::F64(lit) => write!(out, "{:.2}d", lit)?,
             Constant::Bool(true) => write!(out, "true")?,
-- 
2.43.0


From f249dd42b7fed051805ea98642f612242ec28ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:09 +0000
Subject: [PATCH 04/12] fix: parenthesise right operands of the same precedence
 in decompiled code

---
 decompiler/src/print.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 1bd0223..b9cae06 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -403,6 +403,7 @@ fn write_call<W: Write>(
             .filter(|op| match op {
                 ParentOp::UnOp | ParentOp::Dot => true,
                 ParentOp::BinOp(op) => !binop.does_associate(*op),
+                ParentOp::BinOpRhs(op) => binop.precedence() >= op.precedence(),
             })
             .is_some()
         {
@@ -444,7 +445,7 @@ fn write_binop<W: Write>(
 ) -> Result<(), Error> {
     write_expr_nested(out, lhs, Some(ParentOp::BinOp(op)), verbose, 0)?;
     write!(out, " {} ", format_binop(op))?;
-    write_expr_nested(out, rhs, Some(ParentOp::BinOp(op)), verbose, 0)
+    write_expr_nested(out, rhs, Some(ParentOp::BinOpRhs(op)), verbose, 0)
 }
 
 fn write_unop<W: Write>(out: &mut W, param: &Expr<SourceAst>, op: UnOp, verbose: bool) -> Result<(), Error> {
@@ -515,5 +516,6 @@ fn format_unop(op: UnOp) -> &'static str {
 enum ParentOp {
     UnOp,
     BinOp(BinOp),
+    BinOpRhs(BinOp),
     Dot,
 }
-- 
2.43.0


From d5a2b2a92af9f91c58ae4e0fbc205b3cdc943cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:09 +0000
Subject: [PATCH 05/12] fix: keep the enclosing operator when omitting
 reference conversions in decompiled code

---
 decompiler/src/print.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index b9cae06..7069a45 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -417,7 +417,7 @@ fn write_call<W: Write>(
     } else if let Ok(unop) = UnOp::from_str(fun_name) {
         write_unop(out, &params[0], unop, verbose)
     } else if (fun_name == "WeakRefToRef" || fun_name == "RefToWeakRef" || fun_name == "AsRef") && !verbose {
-        write_expr(out, &params[0], verbose, 0)
+        write_expr_nested(out, &params[0], parent_op, verbose, 0)
     } else {
         write!(out, "{}", fun_name)?;
         if !type_params.is_empty() {
-- 
2.43.0


From 536c1a79586c1cdd6bfc800b5bbdd471ee0ca9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:25 +0000
Subject: [PATCH 06/12] fix: parenthesise operands of member access, indexing
 and casts in decompiled code

---
 decompiler/src/print.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 7069a45..c3467a7 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -268,11 +268,11 @@ fn write_expr_nested<W: Write>(
         Expr::Cast(type_, expr, _) => {
             if parent_op.is_some() {
                 write!(out, "(")?;
-                write_expr(out, expr, verbose, 0)?;
+                write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
                 write!(out, " as {}", type_.pretty())?;
                 write!(out, ")")?;
             } else {
-                write_expr(out, expr, verbose, 0)?;
+                write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
                 write!(out, " as {}", type_.pretty())?;
             }
         }
@@ -298,7 +298,7 @@ fn write_expr_nested<W: Write>(
             write_call(out, fun, &[], params, None, verbose)?;
         }
         Expr::ArrayElem(arr, idx, _) => {
-            write_expr(out, arr, verbose, 0)?;
+            write_expr_nested(out, arr, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, "[")?;
             write_expr(out, idx, verbose, 0)?;
             write!(out, "]")?;
@@ -370,7 +370,7 @@ fn write_expr_nested<W: Write>(
             write!(out, "}}")?;
         }
         Expr::Member(expr, accessor, _) => {
-            write_expr(out, expr, verbose, 0)?;
+            write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, ".{}", accessor)?;
         }
         Expr::BinOp(lhs, rhs, op, _) => {
@@ -415,7 +415,14 @@ fn write_call<W: Write>(
             write_binop(out, &params[0], &params[1], binop, verbose)
         }
     } else if let Ok(unop) = UnOp::from_str(fun_name) {
-        write_unop(out, &params[0], unop, verbose)
+        if matches!(parent_op, Some(ParentOp::Dot)) {
+            write!(out, "(")?;
+            write_unop(out, &params[0], unop, verbose)?;
+            write!(out, ")")?;
+            Ok(())
+        } else {
+            write_unop(out, &params[0], unop, verbose)
+        }
     } else if (fun_name == "WeakRefToRef" || fun_name == "RefToWeakRef" || fun_name == "AsRef") && !verbose {
         write_expr_nested(out, &params[0], parent_op, verbose, 0)
     } else {
-- 
2.43.0


From a251becf5ad8b05bd005a3a466679c69a22a79b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:25 +0000
Subject: [PATCH 07/12] fix: parenthesise conditional expressions used as
 operands in decompiled code

---
 decompiler/src/print.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index c3467a7..4fc9300 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -355,11 +355,17 @@ fn write_expr_nested<W: Write>(
             }
         }
         Expr::Conditional(condition, true_, false_, _) => {
-            write_expr(out, condition, verbose, 0)?;
+            if parent_op.is_some() {
+                write!(out, "(")?;
+            }
+            write_expr_nested(out, condition, Some(ParentOp::Condition), verbose, 0)?;
             write!(out, " ? ")?;
             write_expr(out, true_, verbose, 0)?;
             write!(out, " : ")?;
             write_expr(out, false_, verbose, 0)?;
+            if parent_op.is_some() {
+                write!(out, ")")?;
+            }
         }
         Expr::While(condition, body, _) => {
             write!(out, "while ")?;
@@ -403,6 +409,7 @@ fn write_call<W: Write>(
             .filter(|op| match op {
                 ParentOp::UnOp | ParentOp::Dot => true,
                 ParentOp::BinOp(op) => !binop.does_associate(*op),
+                ParentOp::Condition => !binop.does_associate(BinOp::AssignAdd),
                 ParentOp::BinOpRhs(op) => binop.precedence() >= op.precedence(),
             })
             .is_some()
@@ -524,5 +531,6 @@ enum ParentOp {
     UnOp,
     BinOp(BinOp),
     BinOpRhs(BinOp),
+    Condition,
     Dot,
 }
-- 
2.43.0


From 5ce37ec691cf1f821b7a45b47b1abe5b3e5fed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:47 +0000
Subject: [PATCH 08/12] fix: report a backwards code range as an invalid offset
 instead of panicking

---
 core/src/bytecode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/bytecode.rs b/core/src/bytecode.rs
index b84fa18..872b6b7 100644
--- a/core/src/bytecode.rs
+++ b/core/src/bytecode.rs
@@ -1209,6 +1209,9 @@ impl<'a, Loc: Clone> CodeCursor<'a, Loc> {
     pub fn range(&self, from: Location, to: Location) -> Result<CodeIter<'_, Loc>, CursorError> {
         let start = self.get_index(from)?;
         let end = self.get_index(to)?;
+        if end < start {
+            return Err(CursorError::InvalidInstructionOffset(to));
+        }
         let slice = &self.code[start..end];
         Ok(CodeIter::new_at(slice, from))
     }
-- 
2.43.0


From f9c4f94977c184fc2954a6ccf99b0fd95396cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:47 +0000
Subject: [PATCH 09/12] fix: report a backwards conditional jump as a
 decompilation error instead of panicking

---
 decompiler/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 1da9c57..aba24d4 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -268,7 +268,9 @@ impl<'a> Decompiler<'a> {
             Instr::SwitchLabel(_, _) => return Err(Error::DecompileError("Unexpected SwitchLabel")),
             Instr::SwitchDefault => return Err(Error::DecompileError("Unexpected SwitchDefault")),
             Instr::JumpIfFalse(offset) => {
-                assert!(offset.value >= 0, "negative offset is not supported for JumpIfFalse");
+                if offset.value < 0 {
+                    return Err(Error::DecompileError("negative offset is not supported for JumpIfFalse"));
+                }
                 self.consume_conditional_jump(position, offset, block)?
             }
             Instr::Skip(offset) => Expr::Goto(Target::new(offset.absolute(position)), Span::ZERO),
-- 
2.43.0


From 7233e0cd7be0af3d2a7b585e8e04ec8e7e7b3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:47 +0000
Subject: [PATCH 10/12] fix: print operator calls with missing operands as
 calls instead of panicking

---
 decompiler/src/print.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 4fc9300..28394bb 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -404,7 +404,7 @@ fn write_call<W: Write>(
 ) -> Result<(), Error> {
     let fun_name = name.as_ref().split(';').next().expect("Empty function name");
 
-    if let Ok(binop) = BinOp::from_str(fun_name) {
+    if let (Ok(binop), [lhs, rhs, ..]) = (BinOp::from_str(fun_name), params) {
         if parent_op
             .filter(|op| match op {
                 ParentOp::UnOp | ParentOp::Dot => true,
@@ -415,22 +415,25 @@ fn write_call<W: Write>(
             .is_some()
         {
             write!(out, "(")?;
-            write_binop(out, &params[0], &params[1], binop, verbose)?;
+            write_binop(out, lhs, rhs, binop, verbose)?;
             write!(out, ")")?;
             Ok(())
         } else {
-            write_binop(out, &params[0], &params[1], binop, verbose)
+            write_binop(out, lhs, rhs, binop, verbose)
         }
-    } else if let Ok(unop) = UnOp::from_str(fun_name) {
+    } else if let (Ok(unop), [operand, ..]) = (UnOp::from_str(fun_name), params) {
         if matches!(parent_op, Some(ParentOp::Dot)) {
             write!(out, "(")?;
-            write_unop(out, &params[0], unop, verbose)?;
+            write_unop(out, operand, unop, verbose)?;
             write!(out, ")")?;
             Ok(())
         } else {
-            write_unop(out, &params[0], unop, verbose)
+            write_unop(out, operand, unop, verbose)
         }
-    } else if (fun_name == "WeakRefToRef" || fun_name == "RefToWeakRef" || fun_name == "AsRef") && !verbose {
+    } else if (fun_name == "WeakRefToRef" || fun_name == "RefToWeakRef" || fun_name == "AsRef")
+        && !verbose
+        && !params.is_empty()
+    {
         write_expr_nested(out, &params[0], parent_op, verbose, 0)
     } else {
         write!(out, "{}", fun_name)?;
-- 
2.43.0


From 226cbdf95315a25cea981f4dd8b9cdd6512d5b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:47 +0000
Subject: [PATCH 11/12] fix: report dangling or mistyped references of printed
 definitions as errors instead of panicking

---
 decompiler/src/print.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 28394bb..02fd692 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -89,10 +89,10 @@ pub fn write_definition<W: Write>(
             writeln!(out, "}}")?;
         }
         AnyDefinition::Function(fun) => {
-            let return_type = fun.return_type.map_or_else(
-                || "Void".to_owned(),
-                |idx| format_type(pool.definition(idx).unwrap(), pool).unwrap(),
-            );
+            let return_type = match fun.return_type {
+                Some(idx) => format_type(pool.definition(idx)?, pool)?,
+                None => "Void".to_owned(),
+            };
 
             let name = pool.names.get(definition.name)?;
             let pretty_name = name.split(';').next().expect("Function with empty name");
@@ -100,8 +100,9 @@ pub fn write_definition<W: Write>(
             let params = fun
                 .parameters
                 .iter()
-                .map(|param| format_param(pool.definition(*param).unwrap(), pool).unwrap())
-                .format(", ");
+                .map(|param| format_param(pool.definition(*param)?, pool))
+                .collect::<Result<Vec<_>, Error>>()?
+                .join(", ");
 
             writeln!(out)?;
             write_indent(out, depth)?;
@@ -185,7 +186,7 @@ pub fn write_definition<W: Write>(
             }
             writeln!(out, "let {}: {};", field_name, type_name)?;
         }
-        AnyDefinition::SourceFile(_) => panic!(),
+        AnyDefinition::SourceFile(_) => return Err(Error::DecompileError("Unexpected source file definition")),
     }
     Ok(())
 }
@@ -471,7 +472,10 @@ fn write_unop<W: Write>(out: &mut W, param: &Expr<SourceAst>, op: UnOp, verbose:
 }
 
 fn format_param(def: &Definition, pool: &ConstantPool) -> Result<String, Error> {
-    let param = def.value.as_parameter().expect("Expected a param definition");
+    let param = def
+        .value
+        .as_parameter()
+        .ok_or(Error::DecompileError("Expected a param definition"))?;
     let type_name = format_type(pool.definition(param.type_)?, pool)?;
     let name = pool.names.get(def.name)?;
     let out = if param.flags.is_out() { "out " } else { "" };
@@ -481,7 +485,10 @@ fn format_param(def: &Definition, pool: &ConstantPool) -> Result<String, Error>
 }
 
 fn format_type(def: &Definition, pool: &ConstantPool) -> Result<String, Error> {
-    let type_ = def.value.as_type().expect("Expected a type definition");
+    let type_ = def
+        .value
+        .as_type()
+        .ok_or(Error::DecompileError("Expected a type definition"))?;
     let result = match type_ {
         Type::Prim | Type::Class => pool.names.get(def.name)?.to_string(),
         Type::Ref(nested) => format!("ref<{}>", format_type(pool.definition(*nested)?, pool)?),
-- 
2.43.0


From ae51ab3166b67d57358b24ed196bb19d5a095497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:14 +0000
Subject: [PATCH 12/12] fix: skip source references to missing files instead of
 panicking when indexing files

---
 decompiler/src/files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decompiler/src/files.rs b/decompiler/src/files.rs
index 459361f..86cf161 100644
--- a/decompiler/src/files.rs
+++ b/decompiler/src/files.rs
@@ -32,7 +32,7 @@ impl<'a> FileIndex<'a> {
 
     pub fn iter(&'a self) -> impl Iterator<Item = FileEntry<'a>> {
         let source_files = self.file_map.iter().filter_map(move |(idx, children)| {
-            if let AnyDefinition::SourceFile(ref file) = self.pool.definition(*idx).unwrap().value {
+            if let AnyDefinition::SourceFile(ref file) = self.pool.definition(*idx).ok()?.value {
                 let definitions = children
                     .iter()
                     .filter_map(|child| self.pool.definition(*child).ok())
-- 
2.43.0

