From 128b833a606d16503b78b3cb3880311b1dfdcbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:51 +0000
Subject: [PATCH 01/12] fix: keep struct fields in declared order when
 resolving nested types

Fields whose type was already resolved were placed before the others, so the
wire layout depended on hash map iteration order.
---
 src/lib/check.rs | 66 +++++++++++++++---------------------------------
 1 file changed, 21 insertions(+), 45 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 29036ad..3b3237b 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -279,54 +279,30 @@ fn resolve_one_second_pass<'a>(
             ));
         }
         visited.insert(name);
-        // iterate over each field, trying to resolve it
-        // store any field (+ its type) which could not be resolved
-        let mut not_resolved = Vec::new();
-        let mut fields = Vec::new();
-        for (field_name, field_type) in s.0.into_iter() {
-            if let Some(field) = resolve_struct_field(field_name, field_type.clone(), cache, name)? {
-                fields.push(field);
-            } else {
-                not_resolved.push((field_name, field_type));
+        // make sure the type of each field is resolved
+        for (_, field_type) in s.0.iter() {
+            let ftype_name = field_type.0;
+            // try to find the field's typename in whatever is left unresolved
+            if let Some(utype) = unresolved.remove(&ftype_name) {
+                // if it exists, try to resolve it by recursively calling
+                // the function we're in
+
+                // it may fail, so propagate the error out
+                resolve_one_second_pass(ftype_name, utype, cache, visited, unresolved)?;
+            } else if !cache.contains_key(&ftype_name) {
+                //  if the field's typename is unresolved and not in the cache (resolved), it
+                // doesn't exist.
+                return Err(format!("Declaration for type '{}' does not exist", ftype_name));
             }
         }
-        if not_resolved.is_empty() {
-            // if all the fields are resolved, construct the type and cache it
-            cache.insert(name, Ptr::new((name, ResolvedType::Struct(Struct { fields }))));
-        } else {
-            // otherwise, for each field that couldn't be resolved, try to resolve it
-            for (_, field_type) in not_resolved.iter() {
-                let ftype_name = field_type.0;
-                // try to find the field's typename in whatever is left unresolved
-                if let Some(utype) = unresolved.remove(&ftype_name) {
-                    // if it exists, try to resolve it by recursively calling
-                    // the function we're in
-
-                    // it may fail, so propagate the error out
-                    resolve_one_second_pass(ftype_name, utype, cache, visited, unresolved)?;
-                } else if !cache.contains_key(&ftype_name) {
-                    //  if the field's typename is unresolved and not in the cache (resolved), it
-                    // doesn't exist.
-                    return Err(format!("Declaration for type '{}' does not exist", ftype_name));
-                }
-            }
-            // if we get here, it means all the field's types were successfully resolved and
-            // placed in the cache so finish resolving our fields
-            let mut now_resolved = Vec::new();
-            for (fname, fty) in not_resolved.into_iter() {
-                now_resolved.push(resolve_struct_field(fname, fty, cache, name)?.unwrap());
-            }
-            // and we have a complete type
-            cache.insert(
-                name,
-                Ptr::new((
-                    name,
-                    ResolvedType::Struct(Struct {
-                        fields: fields.into_iter().chain(now_resolved).collect(),
-                    }),
-                )),
-            );
+        // if we get here, it means all the field's types were successfully resolved and
+        // placed in the cache so resolve our fields, in the order they were declared
+        let mut fields = Vec::new();
+        for (fname, fty) in s.0.into_iter() {
+            fields.push(resolve_struct_field(fname, fty, cache, name)?.unwrap());
         }
+        // and we have a complete type
+        cache.insert(name, Ptr::new((name, ResolvedType::Struct(Struct { fields }))));
     } else {
         panic!(
             "Something unresolved which is not a struct got into the second pass: {:#?}",
-- 
2.43.0


From b1f597cf107296f6a378f1af9c25b926fa682dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:53 +0000
Subject: [PATCH 02/12] fix: report duplicate fields that follow a field of a
 declared type

The duplicate check stopped at the first field whose type is not built in.
---
 src/lib/check.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 3b3237b..7f93c0b 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -228,8 +228,6 @@ fn resolve_one_first_pass<'a>(
                 field_names.insert(fname);
                 if let Some(field) = resolve_struct_field(fname, fty.clone(), builtins, name)? {
                     fields.push(field);
-                } else {
-                    break;
                 }
             }
             if fields.len() == s.0.len() {
-- 
2.43.0


From b4fbbb591a2903150bd6816f1a1e679952ad4b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:54 +0000
Subject: [PATCH 03/12] fix: report a cycle that does not include the first
 visited type

Such a cycle was reported as a missing declaration, depending on hash map
iteration order.
---
 src/lib/check.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 7f93c0b..f665228 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -287,6 +287,12 @@ fn resolve_one_second_pass<'a>(
 
                 // it may fail, so propagate the error out
                 resolve_one_second_pass(ftype_name, utype, cache, visited, unresolved)?;
+            } else if visited.contains(&ftype_name) && !cache.contains_key(&ftype_name) {
+                // if it's still being resolved, it's a cycle
+                return Err(format!(
+                    "Found a cycle between two or more top level definitions in type '{}'",
+                    ftype_name
+                ));
             } else if !cache.contains_key(&ftype_name) {
                 //  if the field's typename is unresolved and not in the cache (resolved), it
                 // doesn't exist.
-- 
2.43.0


From 9d8cc2eb65eacbe5752b6339593142e7bd460dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:17 +0000
Subject: [PATCH 04/12] fix: use unsigned values for enums with 32 variants

The value of the last variant was negative in the generated code, so no value
of such an enum could be read back.
---
 src/lib/gen/ts.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 200fbef..6f38f64 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -175,8 +175,8 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         check::EnumRepr::U32 => "uint32",
     };
     let (min, max) = (
-        1 << type_info.variants[0].value,
-        1 << type_info.variants[type_info.variants.len() - 1].value,
+        1u32 << type_info.variants[0].value,
+        1u32 << type_info.variants[type_info.variants.len() - 1].value,
     );
     let fname = self::fname(&ctx.stack);
     let temp = self::varname(&ctx.stack, "temp");
@@ -317,7 +317,9 @@ fn gen_enum_decl(ctx: &mut GenCtx, ty: &check::Enum, name: &str) {
     cat!(ctx, "export const enum {name} {{\n");
     cat!(ctx +++);
     for variant in ty.variants.iter() {
-        cat!(ctx, "{variant.name} = 1 << {variant.value},\n");
+        // `1 << 31` is negative in TypeScript, but the value is read and written unsigned
+        let unsigned = if variant.value == 31 { " >>> 0" } else { "" };
+        cat!(ctx, "{variant.name} = 1 << {variant.value}{unsigned},\n");
     }
     cat!(ctx ---);
     cat!(ctx, "}}\n");
-- 
2.43.0


From 6fb4da2c3309abbd355ba31fa786a961e9ecb67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:45 +0000
Subject: [PATCH 05/12] fix: never declare the same variable twice in generated
 code

Field paths are joined with underscores, so e.g. a string field 'a' next to a
struct field 'a_len' produced two declarations of 'output_a_len'.
---
 src/lib/gen/gen_ctx.rs | 14 ++++++++++++++
 src/lib/gen/ts.rs      | 19 ++++++++++---------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/lib/gen/gen_ctx.rs b/src/lib/gen/gen_ctx.rs
index 27d36de..4762061 100644
--- a/src/lib/gen/gen_ctx.rs
+++ b/src/lib/gen/gen_ctx.rs
@@ -1,7 +1,10 @@
+use std::collections::HashSet;
+
 pub struct GenCtx<'a> {
     pub indentation: String,
     pub out: &'a mut String,
     pub stack: Vec<String>,
+    pub declared: HashSet<String>,
 }
 
 impl<'a> GenCtx<'a> {
@@ -10,7 +13,18 @@ impl<'a> GenCtx<'a> {
             indentation: String::new(),
             out,
             stack: Vec::new(),
+            declared: HashSet::new(),
+        }
+    }
+
+    /// Declares a variable, renaming it if the name is already taken
+    pub fn declare(&mut self, name: String) -> String {
+        let mut name = name;
+        while self.declared.contains(&name) {
+            name.push('_');
         }
+        self.declared.insert(name.clone());
+        name
     }
 
     #[inline]
diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 6f38f64..26caf08 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -23,7 +23,7 @@ fn fname(stack: &[String]) -> String { stack.join(".") }
 
 fn gen_write_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
     let fname = self::fname(&ctx.stack);
-    let bind_var = bindname(&ctx.stack);
+    let bind_var = ctx.declare(bindname(&ctx.stack));
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(bind_var.clone());
@@ -48,8 +48,8 @@ fn gen_write_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
 
 fn gen_write_impl_array(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
     let fname = self::fname(&ctx.stack);
-    let item = varname(&ctx.stack, "item");
-    let index = varname(&ctx.stack, "index");
+    let item = ctx.declare(varname(&ctx.stack, "item"));
+    let index = ctx.declare(varname(&ctx.stack, "index"));
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(item.clone());
@@ -128,10 +128,10 @@ fn gen_read_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
 }
 
 fn gen_read_impl_array(ctx: &mut GenCtx, init_struct: bool, body: impl Fn(&mut GenCtx)) {
-    let len_var = varname(&ctx.stack, "len");
+    let len_var = ctx.declare(varname(&ctx.stack, "len"));
     let fname = self::fname(&ctx.stack);
-    let idx_var = varname(&ctx.stack, "index");
-    let item_var = varname(&ctx.stack, "item");
+    let idx_var = ctx.declare(varname(&ctx.stack, "index"));
+    let item_var = ctx.declare(varname(&ctx.stack, "item"));
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(item_var.clone());
@@ -156,7 +156,7 @@ fn gen_read_impl_array(ctx: &mut GenCtx, init_struct: bool, body: impl Fn(&mut G
 fn gen_read_impl_builtin(ctx: &mut GenCtx, type_info: &check::Builtin, type_name: &str) {
     match type_info {
         check::Builtin::String => {
-            let len_var = varname(&ctx.stack, "len");
+            let len_var = ctx.declare(varname(&ctx.stack, "len"));
             cat!(ctx, "let {len_var} = reader.read_uint32();\n");
             let fname = self::fname(&ctx.stack);
             cat!(ctx, "{fname} = reader.read_string({len_var});\n");
@@ -179,7 +179,7 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         1u32 << type_info.variants[type_info.variants.len() - 1].value,
     );
     let fname = self::fname(&ctx.stack);
-    let temp = self::varname(&ctx.stack, "temp");
+    let temp = ctx.declare(varname(&ctx.stack, "temp"));
     cat!(ctx, "let {temp} = reader.read_{repr_name}();\n");
     cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}) {fname} = {temp};\n");
     cat!(ctx, "else reader.failed = true;\n");
@@ -187,8 +187,9 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
 
 fn gen_read_impl_struct(ctx: &mut GenCtx, ty: &check::Struct, _name: &str, init: bool) {
     let fname = self::fname(&ctx.stack);
-    let bind_var = bindname(&ctx.stack);
+    let mut bind_var = bindname(&ctx.stack);
     let old_stack = if init {
+        bind_var = ctx.declare(bind_var);
         let mut old_stack = Vec::new();
         ctx.swap_stack(&mut old_stack);
         ctx.push_fname(bind_var.clone());
-- 
2.43.0


From d478a66ef54d0865b7d4c2423d97670acbc5b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:46 +0000
Subject: [PATCH 06/12] fix: show the unexpected token when non-ASCII text
 precedes it

The byte offset of the error was used as a character index.
---
 src/lib/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lib.rs b/src/lib/lib.rs
index 17e830f..2977a9d 100644
--- a/src/lib/lib.rs
+++ b/src/lib/lib.rs
@@ -25,7 +25,7 @@ fn pretty_error(file: &str, err: ParseError<LineCol>) -> String {
     let mut out_str = String::new();
     out_str += &format!(
         "\nUnexpected token '{}' at line {}, column {}",
-        file.chars().nth(err.location.offset).unwrap_or('\0'),
+        file[err.location.offset..].chars().next().unwrap_or('\0'),
         err.location.line,
         err.location.column
     );
-- 
2.43.0


From 888272d6cf5e53b56d8c83959a8f57be3cf8e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:48 +0000
Subject: [PATCH 07/12] fix: fail when the input path cannot be read

A missing input path was ignored and the exit status was 0.
---
 src/main.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bedcf16..21cb505 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -123,17 +123,15 @@ fn main() -> Result<()> {
     let opts = Opts::parse();
     let base_dir = PathBuf::from(opts.path.clone());
     let out_dir = PathBuf::from(opts.out.clone());
-    if let Ok(meta) = fs::metadata(&opts.path) {
-        if meta.is_dir() {
-            for result in run_all(opts.path.clone(), opts.lang)? {
-                let out = result.path.clone();
-                save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, true)?)?;
-            }
-        } else {
-            let result = run_one(opts.path.clone(), opts.lang)?;
+    if fs::metadata(&opts.path)?.is_dir() {
+        for result in run_all(opts.path.clone(), opts.lang)? {
             let out = result.path.clone();
-            save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, false)?)?;
+            save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, true)?)?;
         }
+    } else {
+        let result = run_one(opts.path.clone(), opts.lang)?;
+        let out = result.path.clone();
+        save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, false)?)?;
     }
 
     Ok(())
-- 
2.43.0


From 26d073eddfd993f464529b094bd390ff55f1abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:49 +0000
Subject: [PATCH 08/12] fix: keep dots in the name of a single output file

The extension was removed twice, so a.b.pkt was written to a.ts.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21cb505..106f181 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -113,7 +113,7 @@ fn format_path(file: &Path, base_dir: &Path, out_dir: &Path, lang: Lang, preserv
         Ok(out_dir
             .components()
             // This should never panic
-            .chain(vec![Component::Normal(file.file_stem().unwrap())].into_iter())
+            .chain(vec![Component::Normal(file.file_name().unwrap())].into_iter())
             .collect::<PathBuf>()
             .with_extension(extension(lang)))
     }
-- 
2.43.0


From b1f26d74a928c438359f88c91680c182648be26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:50 +0000
Subject: [PATCH 09/12] fix: accept identifiers that merely start with a
 reserved word

---
 src/lib/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index 6066bda..bf1874e 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -35,7 +35,7 @@ peg::parser!(pub grammar pkt() for str {
     rule ident_chars() -> &'input str = s:$(['a'..='z'|'A'..='Z'|'0'..='9'|'_']) { s }
     /// Parses an entire identifier, ensuring no reserved keywords are used
     rule ident() -> &'input str
-        = i:quiet!{ $(!reserved() ident_start() ident_chars()*) } { i }
+        = i:quiet!{ $(!(reserved() !ident_chars()) ident_start() ident_chars()*) } { i }
 
     rule enum_variant() -> &'input str
         = s:ident() ___ ","? ___ { s }
-- 
2.43.0


From f6f5892dce8f8981a5aed7d9ff4ce2d8c5f1bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:52 +0000
Subject: [PATCH 10/12] fix: accept declarations whose name starts with export

The prefix was taken for an export statement.
---
 src/lib/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index bf1874e..40ed291 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -70,7 +70,7 @@ peg::parser!(pub grammar pkt() for str {
         }
 
     rule export() -> Node<'input>
-        = "export" _ s:string() {
+        = "export" !ident_chars() _ s:string() {
             Node::Export(s)
         }
 
-- 
2.43.0


From 90e5f81765f8e7550b26176b6ef5cd48d93388a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:53 +0000
Subject: [PATCH 11/12] fix: accept blank lines that contain spaces or tabs

---
 src/lib/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index 40ed291..9e63445 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -75,13 +75,13 @@ peg::parser!(pub grammar pkt() for str {
         }
 
     rule line() -> Option<Node<'input>>
-        = _ comment() __ { None }
-        / _ e:(export()) __ { Some(e) }
-        / _ s:(decl()) __ { Some(s) }
+        = _ comment() ___ { None }
+        / _ e:(export()) ___ { Some(e) }
+        / _ s:(decl()) ___ { Some(s) }
 
     /// Parses a schema file
     pub rule schema() -> AST<'input>
-        = __? lines:(line()*) {
+        = ___ lines:(line()*) {
             lines.into_iter()
                 .filter_map(|x| x)
                 .collect()
-- 
2.43.0


From 966a45850acb4897f4cf514fc5d6e2d1f9447d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:25 +0000
Subject: [PATCH 12/12] fix: keep generated locals from shadowing the exported
 class

A local variable of the generated read method could get the name of the
exported struct, for example output_a. The method then used the variable
in place of the class and failed.
---
 src/lib/gen/ts.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 26caf08..51f1b04 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -254,6 +254,8 @@ fn field_ctor_type(ty: &(&str, check::ResolvedType), export: &str, array: bool,
 impl Impl for TypeScript {
     fn gen_impl<'a>(&self, export: &check::Export, out: &mut String) {
         let mut ctx = GenCtx::new(out);
+        // the class is used inside its methods, so no local may have its name
+        ctx.declare(export.name.to_string());
 
         cat!(ctx, "export class {export.name} {{\n");
         cat!(ctx +++);
-- 
2.43.0

