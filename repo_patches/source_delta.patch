From 9cf2e15b1ae2d88b649d788a76f8ab1eacf39936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 01/14] fix: do not print debug output to stdout while parsing
 a character literal

---
 src/ast/expression/character.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ast/expression/character.rs b/src/ast/expression/character.rs
index 083a6c1..cd30d37 100644
--- a/src/ast/expression/character.rs
+++ b/src/ast/expression/character.rs
@@ -14,10 +14,7 @@ named!(character_content<CompleteStr, char>,
           code: take!(2) >>
           (u8::from_str_radix(code.0, 16))
         ),
-        |r: Result<u8, std::num::ParseIntError>| {
-            println!("{:?}", r);
-            r.map(|u| u as char)
-        }
+        |r: Result<u8, std::num::ParseIntError>| r.map(|u| u as char)
       )
     | anychar
   )
-- 
2.43.0


From 265e54567d5025b13e5ea6229eca5b7010ce0b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 02/14] fix: accept a record update whose closing brace follows
 the last field directly

---
 src/ast/expression/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index e62b93f..c176464 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -136,7 +136,7 @@ named_args!(record_update(indentation: u32) <CompleteStr, Expression>,
       ) >>
       (Expression::RecordUpdate(name.to_string(), pairs))
     ),
-    terminated!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE), char!('}'))
+    terminated!(call!(opt_spaces_or_new_lines_and_indent, indentation, IR::GTE), char!('}'))
   )
 );
 
-- 
2.43.0


From f37ffaae057c28dbc7ad92bfa6e79cd8db4cbff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 03/14] fix: parse a parenthesised expression with inner white
 space as that expression, not as a one entry tuple

---
 src/ast/expression/mod.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index c176464..bd342a6 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -41,7 +41,8 @@ named_args!(tuple(indentation: u32) <CompleteStr, Expression>,
         ),
         char!(')')
     ),
-    Expression::Tuple
+    // A single entry is a parenthesised expression rather than a tuple
+    |mut v: Vec<Expression>| if v.len() == 1 { v.remove(0) } else { Expression::Tuple(v) }
   )
 );
 
@@ -140,14 +141,6 @@ named_args!(record_update(indentation: u32) <CompleteStr, Expression>,
   )
 );
 
-named_args!(parens(indentation: u32) <CompleteStr, Expression>,
-    delimited!(
-        char!('('),
-        call!(expression, indentation),
-        char!(')')
-    )
-);
-
 // Term
 
 named_args!(pub term(indentation: u32) <CompleteStr, Expression>,
@@ -159,7 +152,6 @@ named_args!(pub term(indentation: u32) <CompleteStr, Expression>,
     | float
     | integer
     | character
-    | call!(parens, indentation)
     | call!(list, indentation)
     | call!(tuple, indentation)
     | call!(record_update, indentation)
-- 
2.43.0


From a671d4e1ea9b3bf20d36028849fef7298e63b10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 04/14] fix: parse a parenthesised type as that type, not as a
 one entry tuple

---
 src/ast/type_/mod.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index f71ff90..d33d2a8 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -31,11 +31,12 @@ named_args!(type_tuple(indentation: u32)<CompleteStr, Type>,
             char!(','),
             opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))
         ),
-        call!(type_, indentation)
+        call!(type_annotation, indentation)
       ),
       terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
     ),
-    Type::TypeTuple
+    // A single entry is a parenthesised type rather than a tuple
+    |mut v: Vec<Type>| if v.len() == 1 { v.remove(0) } else { Type::TypeTuple(v) }
   )
 );
 
@@ -96,11 +97,6 @@ named_args!(type_parameter(indentation: u32)<CompleteStr, Type>,
     | call!(type_record_constructor, indentation)
     | call!(type_record, indentation)
     | call!(type_tuple, indentation)
-    | delimited!(
-        preceded!(char!('('), opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))),
-        call!(type_annotation, indentation),
-        terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
-      )
   )
 );
 
@@ -128,11 +124,6 @@ named_args!(pub type_(indentation: u32)<CompleteStr, Type>,
     | call!(type_record_constructor, indentation)
     | call!(type_record, indentation)
     | call!(type_tuple, indentation)
-    | delimited!(
-        preceded!(char!('('), opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))),
-        call!(type_annotation, indentation),
-        terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
-      )
   )
 );
 
-- 
2.43.0


From b9b17a3559ecf759c3decc872ca27ccfd259eb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 05/14] fix: accept type variables with upper case letters or a
 zero

---
 src/ast/type_/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index d33d2a8..b112bc7 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -8,7 +8,7 @@ use ast::type_::core::Type;
 use nom::types::CompleteStr;
 
 named!(type_variable<CompleteStr, Type>,
-  map!(re_matches!(r#"^([a-z][a-z1-9_]*)"#), |c| Type::TypeVariable(c[0].to_string()))
+  map!(re_matches!(r#"^([a-z][a-zA-Z0-9_]*)"#), |c| Type::TypeVariable(c[0].to_string()))
 );
 
 named!(type_constant<CompleteStr, Type>,
-- 
2.43.0


From c03236329c89c841f3ff75501f8201ab8259050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 06/14] fix: do not accept a sign as a digit of a character
 code

---
 src/ast/expression/character.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/expression/character.rs b/src/ast/expression/character.rs
index cd30d37..3df91c2 100644
--- a/src/ast/expression/character.rs
+++ b/src/ast/expression/character.rs
@@ -11,8 +11,8 @@ named!(character_content<CompleteStr, char>,
       map_res!(
         do_parse!(
           tag!("\\x") >>
-          code: take!(2) >>
-          (u8::from_str_radix(code.0, 16))
+          code: re_matches!(r"^([0-9a-fA-F]{2})") >>
+          (u8::from_str_radix(code[0].0, 16))
         ),
         |r: Result<u8, std::num::ParseIntError>| r.map(|u| u as char)
       )
-- 
2.43.0


From efecee157c69901fce3271978237eebc46de5bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 07/14] fix: accept double quotes inside a triple quoted string

---
 src/ast/expression/string.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ast/expression/string.rs b/src/ast/expression/string.rs
index 904d5ad..acbcdcf 100644
--- a/src/ast/expression/string.rs
+++ b/src/ast/expression/string.rs
@@ -16,9 +16,8 @@ named!(single_string<CompleteStr, String>,
 
 named!(multi_string<CompleteStr, String>,
   map!(
-    delimited!(tag!(r#"""""#), re_matches!(r#"^([^"]*)"#), tag!(r#"""""#)),
-    // There is a match above so we'll have a single entry in the vec
-    |v| v[0].to_string()
+    preceded!(tag!(r#"""""#), take_until_and_consume!(r#"""""#)),
+    |s| s.to_string()
   )
 );
 
-- 
2.43.0


From c9f22a59de64d7638702aa06b73d043c1c04ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 08/14] fix: accept an extended record type whose closing brace
 follows the last field directly

---
 src/ast/type_/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index b112bc7..72df752 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -72,7 +72,7 @@ named_args!(type_record_constructor(indentation: u32)<CompleteStr, Type>,
       char!('|') >>
       call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
       record_pairs: call!(type_record_pairs, indentation) >>
-      call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
+      opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)) >>
       (Type::TypeRecordConstructor(Box::new(var), record_pairs))
     ),
     char!('}')
-- 
2.43.0


From 8af80904594c5bab704c4e3ab86ef29b8d48c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 09/14] fix: an unreadable file does not stop the dump of a
 directory

---
 src/dump.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dump.rs b/src/dump.rs
index dc4fb2e..84506eb 100644
--- a/src/dump.rs
+++ b/src/dump.rs
@@ -18,11 +18,18 @@ mod ast;
 use ast::file;
 
 fn dump_file(filename: &str, quiet: bool) {
-    let mut f = File::open(filename).expect("file not found");
-
     let mut contents = String::new();
-    f.read_to_string(&mut contents)
-        .expect("something went wrong reading the file");
+    let read = File::open(filename).and_then(|mut f| f.read_to_string(&mut contents));
+
+    // Report an unreadable file like any other failure so that it does not stop a directory dump
+    if let Err(error) = read {
+        if quiet {
+            println!("{:?} failed to parse", filename)
+        } else {
+            println!("{:#?}", error)
+        }
+        return;
+    }
 
     let result = file(CompleteStr(&contents));
 
-- 
2.43.0


From 8dc4c4dfa5c2a9340222a93b825953db7d1922a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 10/14] Add a guarded entry point for the verification harness

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e5c7d39..4dd8ad7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,3 +3,12 @@ extern crate nom;
 extern crate regex;
 
 mod ast;
+
+/// Entry point for the verification harness: the tree `ast::file` builds for `text` in `Debug`
+/// form, or `None` when it rejects the text.
+#[cfg(elm_parser_verif)]
+pub fn verif_parse(text: &str) -> Option<String> {
+    ast::file(nom::types::CompleteStr(text))
+        .ok()
+        .map(|(_, tree)| format!("{:?}", tree))
+}
-- 
2.43.0


From d76497be0fb4795a80c4df01b4d1cf4348521917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 11/14] fix: do not parse the failed binding of a variable in a
 let a second time

---
 src/ast/expression/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index bd342a6..8ba1162 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -210,6 +210,15 @@ named_args!(let_binding_target(indentation: u32) <CompleteStr, Expression>,
   )
 );
 
+named_args!(let_variable_binding_start(indentation: u32) <CompleteStr, char>,
+   do_parse!(
+       variable >>
+       call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
+       equals: char!('=') >>
+       (equals)
+   )
+);
+
 named_args!(let_binding(indentation: u32) <CompleteStr, LetEntry>,
    do_parse!(
        binding: call!(let_binding_target, indentation) >>
@@ -224,9 +233,17 @@ named_args!(let_binding(indentation: u32) <CompleteStr, LetEntry>,
 named_args!(let_bindings(indentation: u32) <CompleteStr, Vec<LetEntry>>,
     separated_nonempty_list!(
         call!(spaces_or_new_lines_and_indent, indentation, IR::EQ),
+        // What starts like the binding of a variable is no function either when that binding
+        // fails. Parsing it again as one would take exponential time for nested lets
         alt!(
             call!(let_binding, indentation)
-          | map!(call!(function, indentation), LetEntry::LetFunction)
+          | map!(
+                preceded!(
+                    not!(call!(let_variable_binding_start, indentation)),
+                    call!(function, indentation)
+                ),
+                LetEntry::LetFunction
+            )
         )
     )
 );
-- 
2.43.0


From dcd4d7206b18fbbf8f9c5bf219bd8d93b265c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 12/14] fix: start every entry of a let or case on its own line

A bracket that failed to parse as an argument was parsed again as the
next entry of the enclosing blocks, each of which did so in turn: time
doubled with every level of an unfinished one line let or case.  It also
let an entry that does not start in the column of the first one pass.
---
 src/ast/helpers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/helpers.rs b/src/ast/helpers.rs
index 59c898d..820561f 100644
--- a/src/ast/helpers.rs
+++ b/src/ast/helpers.rs
@@ -117,8 +117,9 @@ named_args!(pub spaces_or_new_lines_and_indent(indentation: u32, ir: IR) <Comple
         // Only apply test if there have been new lines - otherwise we've just had some spaces or
         // comments and there isn't any new indentation to test
         match ir {
+            // Entries of a block each start on a line of their own
             IR::EQ => {
-                if !has_new_line || new_indent == indentation {
+                if has_new_line && new_indent == indentation {
                     Ok(new_indent)
                 }
                 else {
-- 
2.43.0


From e138c91ff79ba59f0725e3bacbaae95ed4ae4420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 13/14] fix: a directory that cannot be read does not stop the
 dump of the others

---
 Cargo.lock  | 138 ++++++++++++++++++++++++++--------------------------
 src/dump.rs |  13 +++--
 2 files changed, 79 insertions(+), 72 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index 7fbd466..5fc7b04 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,245 +1,247 @@
+# This file is automatically @generated by Cargo.
+# It is not intended for manual editing.
+version = 4
+
 [[package]]
 name = "aho-corasick"
 version = "0.6.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d6531d44de723825aa81398a6415283229725a00fa30713812ab9323faa82fc4"
 dependencies = [
- "memchr 2.0.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "memchr",
 ]
 
 [[package]]
 name = "ansi_term"
 version = "0.11.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ee49baf6cb617b853aa8d93bf420db2383fab46d314482ca2803b40d5fde979b"
 dependencies = [
- "winapi 0.3.5 (registry+https://github.com/rust-lang/crates.io-index)",
+ "winapi",
 ]
 
 [[package]]
 name = "atty"
 version = "0.2.10"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "2fc4a1aa4c24c0718a250f0681885c1af91419d242f29eb8f2ab28502d80dbd1"
 dependencies = [
- "libc 0.2.40 (registry+https://github.com/rust-lang/crates.io-index)",
- "termion 1.5.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.3.5 (registry+https://github.com/rust-lang/crates.io-index)",
+ "libc",
+ "termion",
+ "winapi",
 ]
 
 [[package]]
 name = "bitflags"
 version = "1.0.3"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d0c54bb8f454c567f21197eefcdbf5679d0bd99f2ddbe52e84c77061952e6789"
 
 [[package]]
 name = "clap"
 version = "2.32.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "b957d88f4b6a63b9d70d5f454ac8011819c6efa7727858f458ab71c756ce2d3e"
 dependencies = [
- "ansi_term 0.11.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "atty 0.2.10 (registry+https://github.com/rust-lang/crates.io-index)",
- "bitflags 1.0.3 (registry+https://github.com/rust-lang/crates.io-index)",
- "strsim 0.7.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "textwrap 0.10.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "unicode-width 0.1.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "vec_map 0.8.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "ansi_term",
+ "atty",
+ "bitflags",
+ "strsim",
+ "textwrap",
+ "unicode-width",
+ "vec_map",
 ]
 
 [[package]]
 name = "elm-parser"
 version = "0.1.0"
 dependencies = [
- "clap 2.32.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "nom 4.0.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "regex 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "walkdir 2.1.4 (registry+https://github.com/rust-lang/crates.io-index)",
+ "clap",
+ "nom",
+ "regex",
+ "walkdir",
 ]
 
 [[package]]
 name = "lazy_static"
 version = "1.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "c8f31047daa365f19be14b47c29df4f7c3b581832407daabe6ae77397619237d"
 
 [[package]]
 name = "libc"
 version = "0.2.40"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "6fd41f331ac7c5b8ac259b8bf82c75c0fb2e469bbf37d2becbba9a6a2221965b"
 
 [[package]]
 name = "memchr"
 version = "2.0.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "796fba70e76612589ed2ce7f45282f5af869e0fdd7cc6199fa1aa1f1d591ba9d"
 dependencies = [
- "libc 0.2.40 (registry+https://github.com/rust-lang/crates.io-index)",
+ "libc",
 ]
 
 [[package]]
 name = "nom"
 version = "4.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "898696750eb5c3ce5eb5afbfbe46e7f7c4e1936e19d3e97be4b7937da7b6d114"
 dependencies = [
- "memchr 2.0.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "regex 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "memchr",
+ "regex",
 ]
 
 [[package]]
 name = "redox_syscall"
 version = "0.1.40"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "c214e91d3ecf43e9a4e41e578973adeb14b474f2bee858742d127af75a0112b1"
 
 [[package]]
 name = "redox_termios"
 version = "0.1.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7e891cfe48e9100a70a3b6eb652fef28920c117d366339687bd5576160db0f76"
 dependencies = [
- "redox_syscall 0.1.40 (registry+https://github.com/rust-lang/crates.io-index)",
+ "redox_syscall",
 ]
 
 [[package]]
 name = "regex"
 version = "1.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "75ecf88252dce580404a22444fc7d626c01815debba56a7f4f536772a5ff19d3"
 dependencies = [
- "aho-corasick 0.6.4 (registry+https://github.com/rust-lang/crates.io-index)",
- "memchr 2.0.1 (registry+https://github.com/rust-lang/crates.io-index)",
- "regex-syntax 0.6.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "thread_local 0.3.5 (registry+https://github.com/rust-lang/crates.io-index)",
- "utf8-ranges 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "aho-corasick",
+ "memchr",
+ "regex-syntax",
+ "thread_local",
+ "utf8-ranges",
 ]
 
 [[package]]
 name = "regex-syntax"
 version = "0.6.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "8f1ac0f60d675cc6cf13a20ec076568254472551051ad5dd050364d70671bf6b"
 dependencies = [
- "ucd-util 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "ucd-util",
 ]
 
 [[package]]
 name = "same-file"
 version = "1.0.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "cfb6eded0b06a0b512c8ddbcf04089138c9b4362c2f696f3c3d76039d68f3637"
 dependencies = [
- "winapi 0.3.5 (registry+https://github.com/rust-lang/crates.io-index)",
+ "winapi",
 ]
 
 [[package]]
 name = "strsim"
 version = "0.7.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "bb4f380125926a99e52bc279241539c018323fab05ad6368b56f93d9369ff550"
 
 [[package]]
 name = "termion"
 version = "1.5.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "689a3bdfaab439fd92bc87df5c4c78417d3cbe537487274e9b0b2dce76e92096"
 dependencies = [
- "libc 0.2.40 (registry+https://github.com/rust-lang/crates.io-index)",
- "redox_syscall 0.1.40 (registry+https://github.com/rust-lang/crates.io-index)",
- "redox_termios 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)",
+ "libc",
+ "redox_syscall",
+ "redox_termios",
 ]
 
 [[package]]
 name = "textwrap"
 version = "0.10.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "307686869c93e71f94da64286f9a9524c0f308a9e1c87a583de8e9c9039ad3f6"
 dependencies = [
- "unicode-width 0.1.5 (registry+https://github.com/rust-lang/crates.io-index)",
+ "unicode-width",
 ]
 
 [[package]]
 name = "thread_local"
 version = "0.3.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "279ef31c19ededf577bfd12dfae728040a21f635b06a24cd670ff510edd38963"
 dependencies = [
- "lazy_static 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "unreachable 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "lazy_static",
+ "unreachable",
 ]
 
 [[package]]
 name = "ucd-util"
 version = "0.1.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "fd2be2d6639d0f8fe6cdda291ad456e23629558d466e2789d2c3e9892bda285d"
 
 [[package]]
 name = "unicode-width"
 version = "0.1.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "882386231c45df4700b275c7ff55b6f3698780a650026380e72dabe76fa46526"
 
 [[package]]
 name = "unreachable"
 version = "1.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "382810877fe448991dfc7f0dd6e3ae5d58088fd0ea5e35189655f84e6814fa56"
 dependencies = [
- "void 1.0.2 (registry+https://github.com/rust-lang/crates.io-index)",
+ "void",
 ]
 
 [[package]]
 name = "utf8-ranges"
 version = "1.0.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "662fab6525a98beff2921d7f61a39e7d59e0b425ebc7d0d9e66d316e55124122"
 
 [[package]]
 name = "vec_map"
 version = "0.8.1"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "05c78687fb1a80548ae3250346c3db86a80a7cdd77bda190189f2d0a0987c81a"
 
 [[package]]
 name = "void"
 version = "1.0.2"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "6a02e4885ed3bc0f2de90ea6dd45ebcbb66dacffe03547fadbb0eeae2770887d"
 
 [[package]]
 name = "walkdir"
 version = "2.1.4"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "63636bd0eb3d00ccb8b9036381b526efac53caf112b7783b730ab3f8e44da369"
 dependencies = [
- "same-file 1.0.2 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi 0.3.5 (registry+https://github.com/rust-lang/crates.io-index)",
+ "same-file",
+ "winapi",
 ]
 
 [[package]]
 name = "winapi"
 version = "0.3.5"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "773ef9dcc5f24b7d850d0ff101e542ff24c3b090a9768e03ff889fdef41f00fd"
 dependencies = [
- "winapi-i686-pc-windows-gnu 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)",
- "winapi-x86_64-pc-windows-gnu 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)",
+ "winapi-i686-pc-windows-gnu",
+ "winapi-x86_64-pc-windows-gnu",
 ]
 
 [[package]]
 name = "winapi-i686-pc-windows-gnu"
 version = "0.4.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "ac3b87c63620426dd9b991e5ce0329eff545bccbbb34f3be09ff6fb6ab51b7b6"
 
 [[package]]
 name = "winapi-x86_64-pc-windows-gnu"
 version = "0.4.0"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-
-[metadata]
-"checksum aho-corasick 0.6.4 (registry+https://github.com/rust-lang/crates.io-index)" = "d6531d44de723825aa81398a6415283229725a00fa30713812ab9323faa82fc4"
-"checksum ansi_term 0.11.0 (registry+https://github.com/rust-lang/crates.io-index)" = "ee49baf6cb617b853aa8d93bf420db2383fab46d314482ca2803b40d5fde979b"
-"checksum atty 0.2.10 (registry+https://github.com/rust-lang/crates.io-index)" = "2fc4a1aa4c24c0718a250f0681885c1af91419d242f29eb8f2ab28502d80dbd1"
-"checksum bitflags 1.0.3 (registry+https://github.com/rust-lang/crates.io-index)" = "d0c54bb8f454c567f21197eefcdbf5679d0bd99f2ddbe52e84c77061952e6789"
-"checksum clap 2.32.0 (registry+https://github.com/rust-lang/crates.io-index)" = "b957d88f4b6a63b9d70d5f454ac8011819c6efa7727858f458ab71c756ce2d3e"
-"checksum lazy_static 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)" = "c8f31047daa365f19be14b47c29df4f7c3b581832407daabe6ae77397619237d"
-"checksum libc 0.2.40 (registry+https://github.com/rust-lang/crates.io-index)" = "6fd41f331ac7c5b8ac259b8bf82c75c0fb2e469bbf37d2becbba9a6a2221965b"
-"checksum memchr 2.0.1 (registry+https://github.com/rust-lang/crates.io-index)" = "796fba70e76612589ed2ce7f45282f5af869e0fdd7cc6199fa1aa1f1d591ba9d"
-"checksum nom 4.0.0 (registry+https://github.com/rust-lang/crates.io-index)" = "898696750eb5c3ce5eb5afbfbe46e7f7c4e1936e19d3e97be4b7937da7b6d114"
-"checksum redox_syscall 0.1.40 (registry+https://github.com/rust-lang/crates.io-index)" = "c214e91d3ecf43e9a4e41e578973adeb14b474f2bee858742d127af75a0112b1"
-"checksum redox_termios 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)" = "7e891cfe48e9100a70a3b6eb652fef28920c117d366339687bd5576160db0f76"
-"checksum regex 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)" = "75ecf88252dce580404a22444fc7d626c01815debba56a7f4f536772a5ff19d3"
-"checksum regex-syntax 0.6.0 (registry+https://github.com/rust-lang/crates.io-index)" = "8f1ac0f60d675cc6cf13a20ec076568254472551051ad5dd050364d70671bf6b"
-"checksum same-file 1.0.2 (registry+https://github.com/rust-lang/crates.io-index)" = "cfb6eded0b06a0b512c8ddbcf04089138c9b4362c2f696f3c3d76039d68f3637"
-"checksum strsim 0.7.0 (registry+https://github.com/rust-lang/crates.io-index)" = "bb4f380125926a99e52bc279241539c018323fab05ad6368b56f93d9369ff550"
-"checksum termion 1.5.1 (registry+https://github.com/rust-lang/crates.io-index)" = "689a3bdfaab439fd92bc87df5c4c78417d3cbe537487274e9b0b2dce76e92096"
-"checksum textwrap 0.10.0 (registry+https://github.com/rust-lang/crates.io-index)" = "307686869c93e71f94da64286f9a9524c0f308a9e1c87a583de8e9c9039ad3f6"
-"checksum thread_local 0.3.5 (registry+https://github.com/rust-lang/crates.io-index)" = "279ef31c19ededf577bfd12dfae728040a21f635b06a24cd670ff510edd38963"
-"checksum ucd-util 0.1.1 (registry+https://github.com/rust-lang/crates.io-index)" = "fd2be2d6639d0f8fe6cdda291ad456e23629558d466e2789d2c3e9892bda285d"
-"checksum unicode-width 0.1.5 (registry+https://github.com/rust-lang/crates.io-index)" = "882386231c45df4700b275c7ff55b6f3698780a650026380e72dabe76fa46526"
-"checksum unreachable 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)" = "382810877fe448991dfc7f0dd6e3ae5d58088fd0ea5e35189655f84e6814fa56"
-"checksum utf8-ranges 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)" = "662fab6525a98beff2921d7f61a39e7d59e0b425ebc7d0d9e66d316e55124122"
-"checksum vec_map 0.8.1 (registry+https://github.com/rust-lang/crates.io-index)" = "05c78687fb1a80548ae3250346c3db86a80a7cdd77bda190189f2d0a0987c81a"
-"checksum void 1.0.2 (registry+https://github.com/rust-lang/crates.io-index)" = "6a02e4885ed3bc0f2de90ea6dd45ebcbb66dacffe03547fadbb0eeae2770887d"
-"checksum walkdir 2.1.4 (registry+https://github.com/rust-lang/crates.io-index)" = "63636bd0eb3d00ccb8b9036381b526efac53caf112b7783b730ab3f8e44da369"
-"checksum winapi 0.3.5 (registry+https://github.com/rust-lang/crates.io-index)" = "773ef9dcc5f24b7d850d0ff101e542ff24c3b090a9768e03ff889fdef41f00fd"
-"checksum winapi-i686-pc-windows-gnu 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)" = "ac3b87c63620426dd9b991e5ce0329eff545bccbbb34f3be09ff6fb6ab51b7b6"
-"checksum winapi-x86_64-pc-windows-gnu 0.4.0 (registry+https://github.com/rust-lang/crates.io-index)" = "712e227841d057c1ee1cd2fb22fa7e5a5461ae8e48fa2ca79ec42cfc1931183f"
+checksum = "712e227841d057c1ee1cd2fb22fa7e5a5461ae8e48fa2ca79ec42cfc1931183f"
diff --git a/src/dump.rs b/src/dump.rs
index 84506eb..0d7dcbb 100644
--- a/src/dump.rs
+++ b/src/dump.rs
@@ -51,9 +51,16 @@ fn dump_file(filename: &str, quiet: bool) {
     }
 }
 
-fn dump_directory(path: &str, quiet: bool) -> walkdir::Result<()> {
+fn dump_directory(path: &str, quiet: bool) {
     for entry in WalkDir::new(path) {
-        let ent = entry?;
+        // A directory that cannot be read does not stop the dump of the others
+        let ent = match entry {
+            Ok(ent) => ent,
+            Err(error) => {
+                eprintln!("{}", error);
+                continue;
+            }
+        };
 
         if ent.path().is_dir() {
             continue;
@@ -68,8 +75,6 @@ fn dump_directory(path: &str, quiet: bool) -> walkdir::Result<()> {
             None => {}
         }
     }
-
-    Ok(())
 }
 
 fn main() {
-- 
2.43.0


From 52c7b78c507213c19bb3ff6480c163641431fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 14/14] fix: dump files whose name is not UTF-8 too

---
 src/dump.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/dump.rs b/src/dump.rs
index 0d7dcbb..e7d17bf 100644
--- a/src/dump.rs
+++ b/src/dump.rs
@@ -12,19 +12,20 @@ use std::env;
 use std::ffi::OsStr;
 use std::fs::File;
 use std::io::prelude::*;
+use std::path::Path;
 
 mod ast;
 
 use ast::file;
 
-fn dump_file(filename: &str, quiet: bool) {
+fn dump_file(filename: &Path, quiet: bool) {
     let mut contents = String::new();
     let read = File::open(filename).and_then(|mut f| f.read_to_string(&mut contents));
 
     // Report an unreadable file like any other failure so that it does not stop a directory dump
     if let Err(error) = read {
         if quiet {
-            println!("{:?} failed to parse", filename)
+            println!("{:?} failed to parse", filename.to_string_lossy())
         } else {
             println!("{:#?}", error)
         }
@@ -36,14 +37,14 @@ fn dump_file(filename: &str, quiet: bool) {
     match result {
         Ok((_, ast)) => {
             if quiet {
-                println!("{:?} parsed successfully", filename)
+                println!("{:?} parsed successfully", filename.to_string_lossy())
             } else {
                 println!("{:#?}", ast)
             }
         }
         Err(error) => {
             if quiet {
-                println!("{:?} failed to parse", filename)
+                println!("{:?} failed to parse", filename.to_string_lossy())
             } else {
                 println!("{:#?}", error)
             }
@@ -70,10 +71,7 @@ fn dump_directory(path: &str, quiet: bool) {
             continue;
         }
 
-        match ent.path().to_str() {
-            Some(path) => dump_file(path, quiet),
-            None => {}
-        }
+        dump_file(ent.path(), quiet);
     }
 }
 
@@ -95,7 +93,7 @@ fn main() {
             if attr.is_dir() {
                 dump_directory(path, quiet);
             } else {
-                dump_file(path, quiet);
+                dump_file(Path::new(path), quiet);
             }
         }
         None => {}
-- 
2.43.0

