From 260fcbe8d0ca6a6171e9c900fdab097c9cf19dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 01/16] fix: escape Rust keywords correctly in generated local
 variables and non-raw keywords

---
 src/generate_rust.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index e5d76d0..21a667d 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -73,6 +73,10 @@ const RUST_KEYWORDS: &[&str] = &[
     "yield",
 ];
 
+// These Rust keywords can't be used as raw identifiers. Identifiers equal to them are written with
+// a trailing underscore instead, which no other identifier has.
+const NON_RAW_RUST_KEYWORDS: &[&str] = &["Self", "crate", "self", "super"];
+
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
 struct Module {
@@ -643,7 +647,7 @@ fn write_schema<T: Write>(
                     for field in &declaration.fields {
                         write_indentation(buffer, indentation + 2)?;
                         write!(buffer, "let _")?;
-                        write_identifier(buffer, &field.name, Snake, None)?;
+                        write!(buffer, "{}", field.name.snake_case())?;
                         match field.rule {
                             schema::Rule::Asymmetric | schema::Rule::Required => {
                                 write!(buffer, " = {{ let payload = &self.")?;
@@ -693,12 +697,12 @@ fn write_schema<T: Write>(
                     match field.rule {
                         schema::Rule::Asymmetric | schema::Rule::Required => {
                             write!(buffer, "{{ let payload_atlas = &_")?;
-                            write_identifier(buffer, &field.name, Snake, None)?;
+                            write!(buffer, "{}", field.name.snake_case())?;
                             write!(buffer, "; let payload_size = ")?;
                         }
                         schema::Rule::Optional => {
                             write!(buffer, "_")?;
-                            write_identifier(buffer, &field.name, Snake, None)?;
+                            write!(buffer, "{}", field.name.snake_case())?;
                             write!(
                                 buffer,
                                 ".as_ref().map_or(0_usize, |payload_atlas| {{ let payload_size = ",
@@ -726,7 +730,7 @@ fn write_schema<T: Write>(
                     write_indentation(buffer, indentation + 3)?;
                     write_identifier(buffer, &field.name, Snake, None)?;
                     write!(buffer, ": _")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, "{}", field.name.snake_case())?;
                     writeln!(buffer, ",")?;
                 }
                 write_indentation(buffer, indentation + 2)?;
@@ -818,7 +822,7 @@ fn write_schema<T: Write>(
                     for field in &declaration.fields {
                         write_indentation(buffer, indentation + 2)?;
                         write!(buffer, "let mut _")?;
-                        write_identifier(buffer, &field.name, Snake, None)?;
+                        write!(buffer, "{}", field.name.snake_case())?;
                         write!(buffer, ": Option<")?;
                         write_type(buffer, &imports, namespace, &field.r#type.variant, In)?;
                         writeln!(buffer, "> = None;")?;
@@ -875,7 +879,7 @@ fn write_schema<T: Write>(
                     )?;
                     write_indentation(buffer, indentation + 5)?;
                     write!(buffer, "_")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, "{}", field.name.snake_case())?;
                     writeln!(buffer, ".get_or_insert(payload);")?;
                     write_indentation(buffer, indentation + 4)?;
                     writeln!(buffer, "}}")?;
@@ -913,7 +917,7 @@ fn write_schema<T: Write>(
                                     write!(buffer, "|| ")?;
                                 }
                                 write!(buffer, "_")?;
-                                write_identifier(buffer, &field.name, Snake, None)?;
+                                write!(buffer, "{}", field.name.snake_case())?;
                                 write!(buffer, ".is_none()")?;
                             }
                         }
@@ -940,7 +944,7 @@ fn write_schema<T: Write>(
                     write_indentation(buffer, indentation + 3)?;
                     write_identifier(buffer, &field.name, Snake, None)?;
                     write!(buffer, ": _")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, "{}", field.name.snake_case())?;
                     match field.rule {
                         schema::Rule::Asymmetric | schema::Rule::Optional => {}
                         schema::Rule::Required => {
@@ -1744,15 +1748,20 @@ fn write_identifier<T: Write>(
         CaseConvention::Snake => identifier_with_suffix.snake_case(),
     };
 
-    if RUST_KEYWORDS
+    if NON_RAW_RUST_KEYWORDS
+        .iter()
+        .any(|keyword| converted_identifier == *keyword)
+    {
+        write!(buffer, "{converted_identifier}_")?;
+    } else if RUST_KEYWORDS
         .iter()
         .any(|keyword| converted_identifier == *keyword)
     {
-        write!(buffer, "r#")?;
+        write!(buffer, "r#{converted_identifier}")?;
+    } else {
+        write!(buffer, "{converted_identifier}")?;
     }
 
-    write!(buffer, "{converted_identifier}")?;
-
     Ok(())
 }
 
-- 
2.43.0


From 473650e818ff93667abf0543ac2014b3ad05436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 02/16] fix: escape names of built-ins in generated TypeScript

---
 src/generate_typescript.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index 2c24b7a..faff82d 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -95,6 +95,27 @@ const TYPESCRIPT_KEYWORDS: &[&str] = &[
     "yield",
 ];
 
+// These aren't keywords, but they would change the meaning of the generated code if they were used
+// as they are: either the generated code refers to the global with that name, or every object
+// already has a member with that name.
+const TYPESCRIPT_BUILT_INS: &[&str] = &[
+    "ArrayBuffer",
+    "BigInt",
+    "DataView",
+    "Error",
+    "Number",
+    "RangeError",
+    "TextDecoder",
+    "TextEncoder",
+    "Uint8Array",
+    "hasOwnProperty",
+    "isPrototypeOf",
+    "propertyIsEnumerable",
+    "toLocaleString",
+    "toString",
+    "valueOf",
+];
+
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
 struct Module {
@@ -1696,6 +1717,7 @@ fn write_identifier<T: Write>(
 
     if TYPESCRIPT_KEYWORDS
         .iter()
+        .chain(TYPESCRIPT_BUILT_INS)
         .any(|keyword| converted_identifier == *keyword)
     {
         write!(buffer, "_")?;
-- 
2.43.0


From 5e01a749e9252fc824dfcf461535aae12d9f4c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 03/16] fix: never break words when formatting comments

---
 src/schema.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/schema.rs b/src/schema.rs
index a23bcdb..ee37ff1 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -13,6 +13,7 @@ use {
         fmt::{self, Display, Formatter, Write},
         path::PathBuf,
     },
+    textwrap::{word_separators::AsciiSpace, word_splitters::NoHyphenation, Options},
 };
 
 const MAX_COLUMNS: usize = 79;
@@ -120,6 +121,36 @@ pub fn relativize_namespace(namespace1: &Namespace, namespace2: &Namespace) -> (
     )
 }
 
+// Wrap a paragraph at spaces. Words are never broken, even if they are too long to fit on a line,
+// because the pieces would become separate words when the result is parsed.
+fn wrap_paragraph(paragraph: &str, width: usize) -> Vec<String> {
+    let options = Options::new(width)
+        .break_words(false)
+        .word_separator(AsciiSpace)
+        .word_splitter(NoHyphenation);
+
+    let mut text = paragraph.to_owned();
+
+    loop {
+        let lines = textwrap::wrap(&text, &options)
+            .iter()
+            .map(|line| line.trim().to_owned())
+            .filter(|line| !line.is_empty())
+            .collect::<Vec<_>>();
+
+        // Line breaks absorb any extra whitespace around them, which can affect where the lines
+        // would be broken next time. Continue until that doesn't happen anymore, so that formatting
+        // is idempotent.
+        let new_text = lines.join(" ");
+
+        if new_text == text {
+            return lines;
+        }
+
+        text = new_text;
+    }
+}
+
 // Write the paragraphs of a comment separated by line breaks.
 fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W) -> fmt::Result {
     for (i, paragraph) in paragraphs.iter().enumerate() {
@@ -127,7 +158,7 @@ fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W)
             writeln!(f, "{indentation}#")?;
         }
 
-        for line in textwrap::fill(paragraph, MAX_COLUMNS - indentation.len() - 2).lines() {
+        for line in wrap_paragraph(paragraph, MAX_COLUMNS - indentation.len() - 2) {
             writeln!(f, "{indentation}# {line}")?;
         }
     }
-- 
2.43.0


From b8fbe4d5d4f16f51c01ac340365b9a098b8f2eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 04/16] fix: keep the sigil of names that are keywords when
 formatting

---
 src/schema.rs    | 40 +++++++++++++++++++++++++++++-----------
 src/token.rs     | 21 +++++++++++++++++++++
 src/tokenizer.rs |  6 ++----
 3 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/src/schema.rs b/src/schema.rs
index ee37ff1..b136d7a 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -4,8 +4,9 @@ use {
         identifier::Identifier,
         token::{
             ASYMMETRIC_KEYWORD, AS_KEYWORD, BOOL_KEYWORD, BYTES_KEYWORD, CHOICE_KEYWORD,
-            DELETED_KEYWORD, F64_KEYWORD, IMPORT_KEYWORD, OPTIONAL_KEYWORD, S64_KEYWORD,
-            STRING_KEYWORD, STRUCT_KEYWORD, U64_KEYWORD, UNIT_KEYWORD,
+            DELETED_KEYWORD, F64_KEYWORD, IMPORT_KEYWORD, KEYWORDS, OPTIONAL_KEYWORD,
+            RAW_IDENTIFIER_SIGIL, S64_KEYWORD, STRING_KEYWORD, STRUCT_KEYWORD, U64_KEYWORD,
+            UNIT_KEYWORD,
         },
     },
     std::{
@@ -166,6 +167,15 @@ fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W)
     Ok(())
 }
 
+// Write a name, with the sigil if it would be parsed as a keyword otherwise.
+fn write_name<W: Write>(name: &str, f: &mut W) -> fmt::Result {
+    if KEYWORDS.contains(&name) {
+        write!(f, "{RAW_IDENTIFIER_SIGIL}")?;
+    }
+
+    write!(f, "{name}")
+}
+
 impl Schema {
     fn write<W: Write>(&self, f: &mut W) -> fmt::Result {
         write_comment("", &self.comment, f)?;
@@ -205,14 +215,17 @@ impl Import {
         {
             writeln!(f, "{} '{}'", IMPORT_KEYWORD, self.path.display())
         } else {
-            writeln!(
+            write!(
                 f,
-                "{} '{}' {} {}",
+                "{} '{}' {} ",
                 IMPORT_KEYWORD,
                 self.path.display(),
                 AS_KEYWORD,
-                name.snake_case(),
-            )
+            )?;
+
+            write_name(&name.snake_case(), f)?;
+
+            writeln!(f)
         }
     }
 }
@@ -223,7 +236,11 @@ impl Declaration {
 
         self.variant.write(f)?;
 
-        writeln!(f, " {} {{", self.name.pascal_case())?;
+        write!(f, " ")?;
+
+        write_name(&self.name.pascal_case(), f)?;
+
+        writeln!(f, " {{")?;
 
         let mut previous_field_has_comment = false;
 
@@ -280,7 +297,7 @@ impl Field {
             }
         }
 
-        write!(f, "{}", self.name.snake_case())?;
+        write_name(&self.name.snake_case(), f)?;
 
         if let TypeVariant::Unit = self.r#type.variant {
         } else {
@@ -312,10 +329,11 @@ impl TypeVariant {
             }
             Self::Custom(import, name) => {
                 if let Some(import) = import {
-                    write!(f, "{}.{}", import.snake_case(), name.pascal_case())?;
-                } else {
-                    write!(f, "{}", name.pascal_case())?;
+                    write_name(&import.snake_case(), f)?;
+                    write!(f, ".")?;
                 }
+
+                write_name(&name.pascal_case(), f)?;
             }
             Self::F64 => {
                 write!(f, "{F64_KEYWORD}")?;
diff --git a/src/token.rs b/src/token.rs
index 0cc8cb7..3c94b64 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -22,6 +22,27 @@ pub const STRUCT_KEYWORD: &str = "struct";
 pub const U64_KEYWORD: &str = "U64";
 pub const UNIT_KEYWORD: &str = "Unit";
 
+// This is the list of all the keywords above.
+pub const KEYWORDS: &[&str] = &[
+    ASYMMETRIC_KEYWORD,
+    AS_KEYWORD,
+    BOOL_KEYWORD,
+    BYTES_KEYWORD,
+    CHOICE_KEYWORD,
+    DELETED_KEYWORD,
+    F64_KEYWORD,
+    IMPORT_KEYWORD,
+    OPTIONAL_KEYWORD,
+    S64_KEYWORD,
+    STRING_KEYWORD,
+    STRUCT_KEYWORD,
+    U64_KEYWORD,
+    UNIT_KEYWORD,
+];
+
+// An identifier can be prefixed with this character to avoid being parsed as a keyword.
+pub const RAW_IDENTIFIER_SIGIL: char = '$';
+
 // The first step of compilation is to split the source into a stream of tokens. This struct
 // represents a single token.
 #[derive(Clone, Debug)]
diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index d02ca21..7b75f3f 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -5,16 +5,14 @@ use {
         token::{
             Token, Variant, ASYMMETRIC_KEYWORD, AS_KEYWORD, BOOL_KEYWORD, BYTES_KEYWORD,
             CHOICE_KEYWORD, DELETED_KEYWORD, F64_KEYWORD, IMPORT_KEYWORD, OPTIONAL_KEYWORD,
-            S64_KEYWORD, STRING_KEYWORD, STRUCT_KEYWORD, U64_KEYWORD, UNIT_KEYWORD,
+            RAW_IDENTIFIER_SIGIL, S64_KEYWORD, STRING_KEYWORD, STRUCT_KEYWORD, U64_KEYWORD,
+            UNIT_KEYWORD,
         },
     },
     std::path::Path,
     unicode_segmentation::GraphemeCursor,
 };
 
-// An identifier can be prefixed with this character to avoid being parsed as a keyword.
-const RAW_IDENTIFIER_SIGIL: char = '$';
-
 // Tokenize the contents of a schema file.
 #[allow(clippy::cognitive_complexity)]
 #[allow(clippy::too_many_lines)]
-- 
2.43.0


From 3ee0f5b1c46a3e574aff66e1f80b1297048828a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 05/16] fix: keep the identity of type names with digits when
 formatting

---
 src/schema.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/schema.rs b/src/schema.rs
index b136d7a..94bfc55 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -167,6 +167,18 @@ fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W)
     Ok(())
 }
 
+// Write the name of a type. Such names are written in Pascal case, except for those which would be
+// split into different words then, such as `foo_1`.
+fn write_type_name<W: Write>(name: &Identifier, f: &mut W) -> fmt::Result {
+    let pascal_case = name.pascal_case();
+
+    if Identifier::from(pascal_case.as_ref()) == *name {
+        write_name(&pascal_case, f)
+    } else {
+        write_name(&name.snake_case(), f)
+    }
+}
+
 // Write a name, with the sigil if it would be parsed as a keyword otherwise.
 fn write_name<W: Write>(name: &str, f: &mut W) -> fmt::Result {
     if KEYWORDS.contains(&name) {
@@ -238,7 +250,7 @@ impl Declaration {
 
         write!(f, " ")?;
 
-        write_name(&self.name.pascal_case(), f)?;
+        write_type_name(&self.name, f)?;
 
         writeln!(f, " {{")?;
 
@@ -333,7 +345,7 @@ impl TypeVariant {
                     write!(f, ".")?;
                 }
 
-                write_name(&name.pascal_case(), f)?;
+                write_type_name(name, f)?;
             }
             Self::F64 => {
                 write!(f, "{F64_KEYWORD}")?;
-- 
2.43.0


From 9a57c10c119a79060aca89aa31a59b094fbb5982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 06/16] fix: report schema files that correspond to the same
 namespace

---
 src/schema_loader.rs | 62 ++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/src/schema_loader.rs b/src/schema_loader.rs
index 4dbdb43..8ff0cd6 100644
--- a/src/schema_loader.rs
+++ b/src/schema_loader.rs
@@ -2,13 +2,14 @@ use {
     crate::{
         error::{listing, throw, Error},
         format::CodeStr,
+        identifier::Identifier,
         parser::parse,
         schema,
         tokenizer::tokenize,
     },
     std::{
         borrow::ToOwned,
-        collections::{BTreeMap, HashSet},
+        collections::{BTreeMap, HashMap},
         fs::read_to_string,
         io::{self, ErrorKind},
         path::PathBuf,
@@ -36,6 +37,17 @@ fn path_to_namespace(path: &Path) -> schema::Namespace {
     }
 }
 
+// Two namespaces which render identically in some target language are considered to be the same
+// namespace. This function computes a key for checking that. Pascal case is used because it discards
+// the most information.
+fn namespace_key(namespace: &schema::Namespace) -> Vec<String> {
+    namespace
+        .components
+        .iter()
+        .map(Identifier::pascal_case)
+        .collect()
+}
+
 // Load a schema and its transitive dependencies. The imports in the returned schemas are guaranteed
 // to resolve.
 #[allow(clippy::too_many_lines)]
@@ -71,15 +83,17 @@ pub fn load_schemas(
     // compute this by canonicalizing `base_path`, since `base_path` might have zero components,
     // which is considered invalid for canonicalization. So, instead, we canonicalize `schma_path`
     // and take the parent of the result.
-    let canonical_base_path = match schema_path
+    let canonical_paths = schema_path
         .canonicalize()
         .and_then(|canonical_schema_path| {
             canonical_schema_path
                 .parent()
                 .map(ToOwned::to_owned)
+                .map(|canonical_base_path| (canonical_schema_path, canonical_base_path))
                 .ok_or_else(|| io::Error::from(ErrorKind::Other))
-        }) {
-        Ok(canonical_base_path) => canonical_base_path,
+        });
+    let (canonical_schema_path, canonical_base_path) = match canonical_paths {
+        Ok(canonical_paths) => canonical_paths,
         Err(error) => {
             errors.push(throw(
                 &format!(
@@ -124,8 +138,10 @@ pub fn load_schemas(
         based_schema_path.to_owned(),
         None as Option<(PathBuf, String)>,
     )];
-    let mut visited_namespaces = HashSet::new();
-    visited_namespaces.insert(schema_namespace);
+
+    // Keep track of the canonical path of the file corresponding to each namespace.
+    let mut visited_namespaces = HashMap::new();
+    visited_namespaces.insert(namespace_key(&schema_namespace), canonical_schema_path);
 
     // Perform a depth-first traversal of the transitive dependencies.
     while let Some((namespace, path, origin)) = schemas_to_load.pop() {
@@ -229,8 +245,23 @@ pub fn load_schemas(
             import.namespace = Some(import_namespace.clone());
 
             // Visit this import if it hasn't been visited already.
-            if !visited_namespaces.contains(&import_namespace) {
-                visited_namespaces.insert(import_namespace.clone());
+            let import_namespace_key = namespace_key(&import_namespace);
+            if let Some(visited_path) = visited_namespaces.get(&import_namespace_key) {
+                if *visited_path != canonical_import_path {
+                    errors.push(throw::<Error>(
+                        &format!(
+                            "{} conflicts with {}, since both correspond to the same namespace {}.",
+                            canonical_import_path.to_string_lossy().code_str(),
+                            visited_path.to_string_lossy().code_str(),
+                            import_namespace.to_string().code_str(),
+                        ),
+                        Some(&path),
+                        Some(&origin_listing),
+                        None,
+                    ));
+                }
+            } else {
+                visited_namespaces.insert(import_namespace_key, canonical_import_path);
                 schemas_to_load.push((
                     import_namespace,
                     based_import_path,
@@ -240,20 +271,7 @@ pub fn load_schemas(
         }
 
         // Store the schema.
-        if let Some((_, conflicting_schema_path, _)) =
-            schemas.insert(namespace.clone(), (schema, path.clone(), contents))
-        {
-            errors.push(throw::<Error>(
-                &format!(
-                    "This file conflicts with {}, since both correspond to the same namespace {}.",
-                    conflicting_schema_path.to_string_lossy().code_str(),
-                    namespace.to_string().code_str(),
-                ),
-                Some(&path),
-                None,
-                None,
-            ));
-        }
+        schemas.insert(namespace, (schema, path, contents));
     }
 
     // Return a success or report any errors.
-- 
2.43.0


From 3b2d29b9073d74e1bbd76241ad6f1944599d35e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 07/16] fix: reject names that coincide in the generated code

---
 src/validator.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/validator.rs b/src/validator.rs
index c86ef1e..b296c64 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -41,8 +41,10 @@ pub fn validate(
         let mut declaration_names = HashSet::new();
 
         for declaration in &schema.declarations {
-            // Check that the name of the declaration is unique within the file.
-            if !declaration_names.insert(declaration.name.clone()) {
+            // Check that the name of the declaration is unique within the file. We compare names in
+            // Pascal case because that's the case which discards the most information. For example,
+            // `foo1` and `foo_1` both become `Foo1` in the generated code.
+            if !declaration_names.insert(declaration.name.pascal_case()) {
                 errors.push(throw::<Error>(
                     &format!(
                         "A declaration named {} already exists in this file.",
@@ -59,8 +61,9 @@ pub fn validate(
             let mut field_indices = HashSet::new();
 
             for field in &declaration.fields {
-                // Check that the name of the field is unique within the declaration.
-                if !field_names.insert(field.name.clone()) {
+                // Check that the name of the field is unique within the declaration. As with
+                // declarations, we compare names in Pascal case.
+                if !field_names.insert(field.name.pascal_case()) {
                     errors.push(throw::<Error>(
                         &format!(
                             "A field named {} already exists in this declaration.",
-- 
2.43.0


From 56c23437cde7a02873dde900449b1eee83b79b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 08/16] fix: require identifiers to begin with a letter after
 the sigil

---
 src/tokenizer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 7b75f3f..1f1cf26 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -193,6 +193,15 @@ pub fn tokenize(schema_path: &Path, schema_contents: &str) -> Result<Vec<Token>,
                         ));
                     }
 
+                    if schema_contents[start..end].starts_with(char::is_numeric) {
+                        errors.push(throw::<Error>(
+                            "Identifiers must begin with a letter.",
+                            Some(schema_path),
+                            Some(&listing(schema_contents, SourceRange { start: i, end })),
+                            None,
+                        ));
+                    }
+
                     if schema_contents[start..end].starts_with('_') {
                         errors.push(throw::<Error>(
                             "Identifiers cannot begin with `_`.",
-- 
2.43.0


From 5618eb1f616504a83db575a7246ecc241751393b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 09/16] fix: underline unexpected symbols in error messages

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 1f1cf26..2246c35 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -379,7 +379,7 @@ pub fn tokenize(schema_path: &Path, schema_contents: &str) -> Result<Vec<Token>,
                 errors.push(throw::<Error>(
                     &format!("Unexpected symbol {}.", &schema_contents[i..end].code_str()),
                     Some(schema_path),
-                    Some(&listing(schema_contents, SourceRange { start: i, end: i })),
+                    Some(&listing(schema_contents, SourceRange { start: i, end })),
                     None,
                 ));
             }
-- 
2.43.0


From 673c6d5b5c62f7c862922ae458642281f8375bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 10/16] fix: report an error for a trailing comment without a
 declaration

---
 src/parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 39c70ad..2e9e7a2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -311,10 +311,12 @@ fn parse_schema(
             vec![]
         };
 
-        // Parse the keyword [tag:keyword_is_struct_or_choice].
+        // Parse the keyword [tag:keyword_is_struct_or_choice]. Note that there might not be one if we
+        // parsed a comment above.
+        let token = tokens.get(*position).map(|token| &token.variant);
         let keyword =
-            if let token::Variant::Struct | token::Variant::Choice = tokens[*position].variant {
-                tokens[*position].variant.clone()
+            if let Some(keyword @ (token::Variant::Struct | token::Variant::Choice)) = token {
+                keyword.clone()
             } else {
                 errors.push(unexpected_token(
                     source_path,
-- 
2.43.0


From a153bb67b45f2dc6534ca47cc56fd8a6577b91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 11/16] fix: underline the right part of lines with multi-byte
 characters in error messages

---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 050610d..deba7d1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -194,9 +194,9 @@ pub fn listing(source_contents: &str, source_range: SourceRange) -> String {
                         } else {
                             "\u{250a}"
                         },
-                        " ".repeat(*section_start),
+                        " ".repeat(line[..*section_start].chars().count()),
                         // [tag:overline_u203e]
-                        "\u{203e}".repeat(section_end - section_start),
+                        "\u{203e}".repeat(line[*section_start..*section_end].chars().count()),
                     )
                 },
             )
-- 
2.43.0


From 6eca8ebc573555db89c92841df133224f19e8dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 12/16] fix: escape the names of two more built-ins in
 generated TypeScript

---
 src/generate_typescript.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index faff82d..15a6096 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -99,11 +99,13 @@ const TYPESCRIPT_KEYWORDS: &[&str] = &[
 // as they are: either the generated code refers to the global with that name, or every object
 // already has a member with that name.
 const TYPESCRIPT_BUILT_INS: &[&str] = &[
+    "Array",
     "ArrayBuffer",
     "BigInt",
     "DataView",
     "Error",
     "Number",
+    "Object",
     "RangeError",
     "TextDecoder",
     "TextEncoder",
-- 
2.43.0


From d93b69ff41bb61c54f7e8bad40b7df211940f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 13/16] fix: keep the lines of formatted comments within 79
 columns

---
 src/schema.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/schema.rs b/src/schema.rs
index 94bfc55..f3e0c9b 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -14,7 +14,10 @@ use {
         fmt::{self, Display, Formatter, Write},
         path::PathBuf,
     },
-    textwrap::{word_separators::AsciiSpace, word_splitters::NoHyphenation, Options},
+    textwrap::{
+        word_separators::AsciiSpace, word_splitters::NoHyphenation, wrap_algorithms::FirstFit,
+        Options,
+    },
 };
 
 const MAX_COLUMNS: usize = 79;
@@ -128,7 +131,8 @@ fn wrap_paragraph(paragraph: &str, width: usize) -> Vec<String> {
     let options = Options::new(width)
         .break_words(false)
         .word_separator(AsciiSpace)
-        .word_splitter(NoHyphenation);
+        .word_splitter(NoHyphenation)
+        .wrap_algorithm(FirstFit);
 
     let mut text = paragraph.to_owned();
 
-- 
2.43.0


From 932ba58429c198165c5dfee69c894d9a541492c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:13 +0000
Subject: [PATCH 14/16] fix: merge errors in linear time

---
 src/error_merger.rs | 47 ++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/error_merger.rs b/src/error_merger.rs
index 36cbaed..04d8b81 100644
--- a/src/error_merger.rs
+++ b/src/error_merger.rs
@@ -2,31 +2,30 @@ use crate::error::Error;
 
 // Merge a list of errors into a single one.
 pub fn merge_errors(errors: &[Error]) -> Error {
+    // The message is built in place, since there may be many errors and their listings may be long.
+    let mut message = String::new();
+
+    for error in errors {
+        // Only render an empty line between errors here if the previous line doesn't already
+        // visually look like an empty line. See [ref:overline_u203e].
+        let separator = if message
+            .rsplit('\n')
+            .next()
+            .unwrap() // Safe since `rsplit` always results in at least one item
+            .chars()
+            .all(|c| c == ' ' || c == '\u{203e}')
+        {
+            "\n"
+        } else {
+            "\n\n"
+        };
+
+        message.push_str(separator);
+        message.push_str(&error.to_string());
+    }
+
     Error {
-        message: errors
-            .iter()
-            .fold(String::new(), |acc, error| {
-                format!(
-                    "{}\n{}{}",
-                    acc,
-                    // Only render an empty line between errors here if the previous line doesn't
-                    // already visually look like an empty line. See [ref:overline_u203e].
-                    if acc
-                        .split('\n')
-                        .last()
-                        .unwrap() // Safe since `split` always results in at least one item
-                        .chars()
-                        .all(|c| c == ' ' || c == '\u{203e}')
-                    {
-                        ""
-                    } else {
-                        "\n"
-                    },
-                    error,
-                )
-            })
-            .trim()
-            .to_owned(),
+        message: message.trim().to_owned(),
         reason: None,
     }
 }
-- 
2.43.0


From d78404962652f1c0572eb547e55dc44a1f131f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:17 +0000
Subject: [PATCH 15/16] fix: escape the keyword gen in generated Rust

---
 src/generate_rust.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index 21a667d..5163262 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -38,6 +38,7 @@ const RUST_KEYWORDS: &[&str] = &[
     "final",
     "fn",
     "for",
+    "gen",
     "if",
     "impl",
     "in",
-- 
2.43.0


From a1e7b7e551d9937dff0175ecae30d2304c98d61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:55 +0000
Subject: [PATCH 16/16] fix: report errors when writing to STDOUT

---
 src/main.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e2f1bc3..1ffe6c7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -25,7 +25,7 @@ use {
     clap::{App, AppSettings, Arg, Shell, SubCommand},
     std::{
         fs::{create_dir_all, write},
-        io::stdout,
+        io::{stdout, Write},
         path::Path,
         process::exit,
     },
@@ -124,6 +124,16 @@ fn cli<'a, 'b>() -> App<'a, 'b> {
         )
 }
 
+// Write some text to STDOUT. Unlike `print!`, this reports an error if that's not possible.
+fn print(text: &str) -> Result<(), Error> {
+    let mut stdout = stdout();
+
+    stdout
+        .write_all(text.as_bytes())
+        .and_then(|()| stdout.flush())
+        .map_err(|error| throw("Unable to write to STDOUT.", None, None, Some(error)))
+}
+
 // Generate code for a schema and its transitive dependencies.
 fn generate_code(
     path: &Path,
@@ -148,7 +158,10 @@ fn generate_code(
         let directory = path.parent().unwrap();
 
         for (_, source_path, _) in schemas.values() {
-            println!("{}", directory.join(source_path).to_string_lossy());
+            print(&format!(
+                "{}\n",
+                directory.join(source_path).to_string_lossy(),
+            ))?;
         }
     }
 
@@ -300,8 +313,12 @@ fn shell_completion(shell: &str) -> Result<(), Error> {
         }
     };
 
+    // Generate the script.
+    let mut script = vec![];
+    cli().gen_completions_to(BIN_NAME, shell_variant, &mut script);
+
     // Write the script to STDOUT.
-    cli().gen_completions_to(BIN_NAME, shell_variant, &mut stdout());
+    print(&String::from_utf8_lossy(&script))?;
 
     // If we made it this far, nothing went wrong.
     Ok(())
-- 
2.43.0

