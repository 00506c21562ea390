From aad68991e3c757d517918a5fed35541aa4a0f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 01/25] fix: copy-on-error must not copy a file onto itself

With paths that differ as strings but designate the same file (./s.svg,
a symbolic or a hard link) fs::copy truncated the input before reading it.
---
 src/main.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8f0c098..edf99b5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -24,7 +24,10 @@ use std::fmt;
 use std::fs;
 use std::str;
 use std::path::Path;
+#[cfg(not(unix))]
+use std::path::PathBuf;
 use std::io::{
+    self,
     stderr,
     Write,
 };
@@ -105,8 +108,9 @@ fn main() {
         {
             let inf = in_file.unwrap();
             let outf = out_file.unwrap();
-            // Copy a file only when paths are different.
-            if inf != outf {
+            // Copy a file only when paths designate different files,
+            // because copying a file onto itself truncates it.
+            if !try_msg!(is_same_file(inf, outf)) {
                 try_msg!(fs::copy(inf, outf));
             }
         }
@@ -193,6 +197,29 @@ fn main() {
     }
 }
 
+/// Checks that both paths designate the same existing file, no matter how they are spelled.
+fn is_same_file(path1: &str, path2: &str) -> io::Result<bool> {
+    let id1 = file_id(path1)?;
+    match file_id(path2) {
+        Ok(id2) => Ok(id1 == id2),
+        Err(ref e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
+        Err(e) => Err(e),
+    }
+}
+
+/// Device and inode numbers, since hard links have different paths.
+#[cfg(unix)]
+fn file_id(path: &str) -> io::Result<(u64, u64)> {
+    use std::os::unix::fs::MetadataExt;
+
+    fs::metadata(path).map(|m| (m.dev(), m.ino()))
+}
+
+#[cfg(not(unix))]
+fn file_id(path: &str) -> io::Result<PathBuf> {
+    fs::canonicalize(path)
+}
+
 fn log_format(out: fern::FormatCallback, message: &fmt::Arguments, record: &log::Record) {
     use log::Level;
 
-- 
2.43.0


From fec1ff2f243a2e43cc0f996447b4dfcd9f471ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 02/25] fix: do not save an uncleaned document when copying on
 error fails

After a refused document main went on and wrote the buffer it had at that
point - the original or the previous pass - reporting success, whenever the
copy had failed.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index edf99b5..37d5e79 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -143,7 +143,7 @@ fn main() {
             Err(e) => {
                 writeln!(stderr(), "{}.", e.full_chain()).unwrap();
                 on_err();
-                break;
+                return;
             }
         }
 
-- 
2.43.0


From 7c10a279ac9d016613bfb7030950dfefb76e66a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 03/25] fix: report errors of writing to the standard output

The end of the document stayed in the buffer of the standard output and
was written at exit, where errors (closed pipe, full disk) are ignored.
---
 src/cleaner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cleaner.rs b/src/cleaner.rs
index 0eec548..42dd4d7 100644
--- a/src/cleaner.rs
+++ b/src/cleaner.rs
@@ -252,8 +252,12 @@ pub fn write_buffer(doc: &Document, opt: &WriteOptions, buf: &mut Vec<u8>) {
 }
 
 pub fn write_stdout(data: &[u8]) -> Result<(), io::Error> {
-    io::stdout().write_all(data)?;
-    Ok(())
+    let stdout = io::stdout();
+    let mut handle = stdout.lock();
+
+    handle.write_all(data)?;
+    // Standard output is buffered: without this call errors are lost.
+    handle.flush()
 }
 
 pub fn save_file(data: &[u8], path: &str) -> Result<(), io::Error> {
-- 
2.43.0


From af32f0499af934d18b07403459a7dc62f512e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 04/25] fix: do not panic when a message can not be printed

---
 src/cli.rs  |  4 ++--
 src/main.rs | 24 +++++++++++++++++-------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index a0d445f..6ee9754 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -352,8 +352,8 @@ pub fn check_values(args: &ArgMatches) -> bool {
 
     fn check_value(args: &ArgMatches, flag: Key, dep: Key) -> bool {
         if !get_flag(args, flag) && get_flag(args, dep) {
-            writeln!(stderr(), "Error: You can use '--{}=true' only with '--{}=true'.",
-                     KEYS[dep], KEYS[flag]).unwrap();
+            let _ = writeln!(stderr(), "Error: You can use '--{}=true' only with '--{}=true'.",
+                             KEYS[dep], KEYS[flag]);
             return false;
         }
         true
diff --git a/src/main.rs b/src/main.rs
index 37d5e79..bdb06bf 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -44,12 +44,22 @@ use svgcleaner::{
     ChainedErrorExt,
 };
 
+/// Prints a message.
+///
+/// A message that can't be printed must not affect the result,
+/// so errors are ignored.
+macro_rules! print_msg {
+    ($($arg:tt)*) => ({
+        let _ = writeln!(stderr(), $($arg)*);
+    })
+}
+
 macro_rules! try_msg {
     ($e:expr) => ({
         match $e {
             Ok(o) => o,
             Err(e) => {
-                writeln!(stderr(), "Error: {}.", e).unwrap();
+                print_msg!("Error: {}.", e);
                 return;
             }
         }
@@ -60,7 +70,7 @@ fn main() {
     fern::Dispatch::new()
         .format(log_format)
         .level(log::LevelFilter::Warn)
-        .chain(std::io::stderr())
+        .chain(fern::Output::call(|record| print_msg!("{}", record.args())))
         .apply().unwrap();
 
     let app = cli::prepare_app();
@@ -85,7 +95,7 @@ fn main() {
 
     if let InputFrom::File(path) = input {
         if !Path::new(path).exists() {
-            writeln!(stderr(), "Error: input file does not exist.").unwrap();
+            print_msg!("Error: input file does not exist.");
             return;
         }
     }
@@ -131,7 +141,7 @@ fn main() {
         let mut doc = match cleaner::parse_data(str::from_utf8(&buf).unwrap(), &parse_opt) {
             Ok(d) => d,
             Err(e) => {
-                writeln!(stderr(), "{}.", e.full_chain()).unwrap();
+                print_msg!("{}.", e.full_chain());
                 on_err();
                 return;
             }
@@ -141,7 +151,7 @@ fn main() {
         match cleaner::clean_doc(&mut doc, &cleaning_opt, &write_opt) {
             Ok(_) => {}
             Err(e) => {
-                writeln!(stderr(), "{}.", e.full_chain()).unwrap();
+                print_msg!("{}.", e.full_chain());
                 on_err();
                 return;
             }
@@ -172,7 +182,7 @@ fn main() {
     // Check that cleaned file is smaller.
     if !args.is_present(KEYS[Key::AllowBiggerFile]) {
         if buf.len() > input_size {
-            writeln!(stderr(), "Error: cleaned file is bigger than original.").unwrap();
+            print_msg!("Error: cleaned file is bigger than original.");
             on_err();
             return;
         }
@@ -193,7 +203,7 @@ fn main() {
 
     if !args.is_present(KEYS[Key::Quiet]) {
         let ratio = 100.0 - (buf.len() as f64) / (input_size as f64) * 100.0;
-        writeln!(stderr(), "Your image is {:.2}% smaller now.", ratio).unwrap();
+        print_msg!("Your image is {:.2}% smaller now.", ratio);
     }
 }
 
-- 
2.43.0


From 07ccbeb8f3153ed2ea7ebfe7ff48772e54cbb222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 05/25] fix: stop multipass cleaning when the document no
 longer shrinks

The loop only ended when two passes gave the same size. A document that
grows with each pass (white space in text elements is not stable) made it
run forever.
---
 src/main.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bdb06bf..ffcc821 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -22,6 +22,7 @@ extern crate fern;
 
 use std::fmt;
 use std::fs;
+use std::mem;
 use std::str;
 use std::path::Path;
 #[cfg(not(unix))]
@@ -130,7 +131,7 @@ fn main() {
 
     let input_size = raw.len();
     let mut buf = raw.into_bytes();
-    let mut prev_size = 0;
+    let mut is_first_pass = true;
 
     loop {
         // Parse it.
@@ -158,12 +159,8 @@ fn main() {
         }
 
 
-        // Clear buffer.
-        //
-        // We are reusing the same buffer for input and output data.
-        buf.clear();
-
         // Write buffer.
+        let prev_buf = mem::replace(&mut buf, Vec::new());
         cleaner::write_buffer(&doc, &write_opt, &mut buf);
 
         if !args.is_present(KEYS[Key::Multipass]) {
@@ -171,12 +168,17 @@ fn main() {
             break;
         }
 
-        // If size is unchanged - exit from the loop.
-        if prev_size == buf.len() {
+        // If size is no longer decreasing - exit from the loop.
+        if !is_first_pass && buf.len() >= prev_buf.len() {
+            // The last pass can make the document bigger.
+            if buf.len() > prev_buf.len() {
+                buf = prev_buf;
+            }
+
             break;
         }
 
-        prev_size = buf.len();
+        is_first_pass = false;
     }
 
     // Check that cleaned file is smaller.
-- 
2.43.0


From c5984a37be58a02b4d872f2125236add813b34d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 06/25] fix: do not panic on a 'use' element that references a
 removed element

---
 src/task/resolve_use.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 29e17bb..9d1b686 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -38,9 +38,10 @@ pub fn resolve_use(doc: &Document) {
             if let AttributeValue::Link(ref link) = *value {
 
                 // Resolve elements that linked to elements inside 'defs'.
-                let parent = link.parent().unwrap();
-                if !parent.is_tag_name(EId::Defs) {
-                    continue;
+                // An element without a parent was removed from the document.
+                match link.parent() {
+                    Some(ref parent) if parent.is_tag_name(EId::Defs) => {}
+                    _ => continue,
                 }
 
                 // 'symbol' elements can't be simply replaced.
-- 
2.43.0


From 1af81c429a135ce2a78484efe2a19ddd3c496bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 07/25] fix: do not panic on a non-SVG node with a transform

---
 src/task/apply_transforms/shapes.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/task/apply_transforms/shapes.rs b/src/task/apply_transforms/shapes.rs
index fdfde01..f942de4 100644
--- a/src/task/apply_transforms/shapes.rs
+++ b/src/task/apply_transforms/shapes.rs
@@ -30,11 +30,12 @@ pub fn apply_transform_to_shapes(doc: &Document) {
     // Apply transform to shapes.
     let iter = doc.descendants().filter(|n| n.has_attribute(AId::Transform));
     for mut node in iter {
-        match node.tag_id().unwrap() {
-            EId::Rect => process_rect(&mut node),
-            EId::Circle => process_circle(&mut node),
-            EId::Ellipse => process_ellipse(&mut node),
-            EId::Line => process_line(&mut node),
+        // Text nodes and non-SVG elements can have a transform too.
+        match node.tag_id() {
+            Some(EId::Rect) => process_rect(&mut node),
+            Some(EId::Circle) => process_circle(&mut node),
+            Some(EId::Ellipse) => process_ellipse(&mut node),
+            Some(EId::Line) => process_line(&mut node),
             _ => {}
         }
     }
-- 
2.43.0


From b52fd8bc1030292f0300f71990a1fd5e2ee6f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 08/25] fix: refuse gradients that reference themselves in a
 circle

---
 src/task/preclean_checks.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/task/preclean_checks.rs b/src/task/preclean_checks.rs
index fb5834a..3c1f326 100644
--- a/src/task/preclean_checks.rs
+++ b/src/task/preclean_checks.rs
@@ -17,9 +17,12 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    self,
     AttributeType,
     AttributeValue,
     Document,
+    ElementType,
+    Node,
 };
 
 use task::short::{EId, AId};
@@ -33,6 +36,7 @@ pub fn preclean_checks(doc: &Document) -> Result<()> {
     check_for_script_attributes(doc)?;
     check_for_conditional_attributes(doc)?;
     check_for_external_xlink(doc)?;
+    check_for_crosslink(doc)?;
 
     Ok(())
 }
@@ -118,6 +122,34 @@ fn check_for_external_xlink(doc: &Document) -> Result<()> {
     Ok(())
 }
 
+// Gradients are resolved recursively via the 'xlink:href' attribute,
+// so they must not reference themselves indirectly.
+// Direct references are already checked by svgdom.
+fn check_for_crosslink(doc: &Document) -> Result<()> {
+    fn linked(node: &Node) -> Option<Node> {
+        match node.attributes().get_value(AId::XlinkHref) {
+            Some(&AttributeValue::Link(ref link)) => Some(link.clone()),
+            _ => None,
+        }
+    }
+
+    for node in doc.descendants().filter(|n| n.is_gradient()) {
+        // The second one moves twice as fast, so they will meet if the list is cyclic.
+        let mut slow = linked(&node);
+        let mut fast = slow.as_ref().and_then(linked);
+        while let (Some(n1), Some(n2)) = (slow, fast) {
+            if n1 == n2 {
+                return Err(svgdom::Error::from(svgdom::ErrorKind::ElementCrosslink).into());
+            }
+
+            slow = linked(&n1);
+            fast = linked(&n2).as_ref().and_then(linked);
+        }
+    }
+
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 5094cad43f069f751c6df1f17491ab10a90e58b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 09/25] fix: do not hang on a gradient referenced by a removed
 element

---
 src/task/resolve_gradients.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index e0bc491..99d0648 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -164,8 +164,10 @@ fn gen_order(doc: &Document, eid: EId) -> Vec<Node> {
                 continue;
             }
 
+            // A referencing gradient can be already removed from the document,
+            // so we should check only those that we are going to process.
             let c = node.linked_nodes().filter(|n| {
-                n.is_tag_name(eid) && !order.iter().any(|on| on == n)
+                nodes.contains(n) && !order.iter().any(|on| on == n)
             }).count();
 
             if c == 0 {
-- 
2.43.0


From 846249044ccb24d2350ab65889493135db30990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 10/25] fix: do not panic on a gradient that references an
 image

---
 src/task/resolve_gradients.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index 99d0648..653aa44 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -199,7 +199,8 @@ fn resolve_attribute(node: &Node, id: AId, def_value: Option<AttributeValue>)
         Some(av) => {
             match *av {
                 AttributeValue::Link(ref ref_node) => resolve_attribute(ref_node, id, def_value),
-                _ => unreachable!(),
+                // Referenced element can be an 'image', for example.
+                _ => def_value,
             }
         }
         None => {
-- 
2.43.0


From b424991391f8c1cd837880634777f68d3c22b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 11/25] fix: do not merge a gradient with a non-gradient
 element

---
 src/task/merge_gradients.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/task/merge_gradients.rs b/src/task/merge_gradients.rs
index b0d46af..a403ff6 100644
--- a/src/task/merge_gradients.rs
+++ b/src/task/merge_gradients.rs
@@ -68,7 +68,10 @@ fn _merge_gradients(doc: &Document, nodes: &mut Vec<Node>) {
 
         if let Some(av) = node.attributes().get_value(AId::XlinkHref) {
             if let AttributeValue::Link(ref link) = *av {
-                if link.uses_count() == 1 && !link.has_attribute(AId::XlinkHref) {
+                // Gradients can reference only other gradients.
+                if    link.is_gradient()
+                   && link.uses_count() == 1
+                   && !link.has_attribute(AId::XlinkHref) {
                     linked_node = link.clone();
                 } else {
                     continue;
-- 
2.43.0


From 16c86c580b6d1c86b059185529108248a32fec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 12/25] fix: do not replace a 'use' inside an element that it
 references

---
 src/task/resolve_use.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 9d1b686..b0bb5ea 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -65,6 +65,11 @@ pub fn resolve_use(doc: &Document) {
     }
 
     for (mut node, mut link) in nodes {
+        // An element can't be moved into itself.
+        if node.parents().any(|n| n == link) {
+            continue;
+        }
+
         // Unlink 'use'.
         node.remove_attribute(AId::XlinkHref);
 
-- 
2.43.0


From 34ccdb2c952e6640a23e6acab2275515bb90b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 13/25] fix: do not panic on duplicated gradients that can not
 be relinked

---
 src/task/rm_dupl_defs/mod.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index d2304bc..cf9fbfa 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -61,6 +61,12 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
                 continue;
             }
 
+            // Links to the removed element can be moved only to an element with an ID
+            // and only when they will not create a circle.
+            if node2.is_used() && (!node1.has_id() || is_linked_indirectly(&node1, &node2)) {
+                continue;
+            }
+
             // Collect linked nodes.
             for ln in node2.linked_nodes() {
                 let attrs = ln.attributes();
@@ -98,6 +104,27 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
     }
 }
 
+// Checks that `node1` references `node2` via 'xlink:href' of other elements.
+fn is_linked_indirectly(node1: &Node, node2: &Node) -> bool {
+    let mut chain = vec![node1.clone()];
+    loop {
+        let link = match chain[chain.len() - 1].attributes().get_value(AId::XlinkHref) {
+            Some(&AttributeValue::Link(ref link)) => link.clone(),
+            _ => return false,
+        };
+
+        if link == *node2 {
+            return chain.len() > 1;
+        }
+
+        if chain.contains(&link) {
+            return false;
+        }
+
+        chain.push(link);
+    }
+}
+
 fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
     let attrs1 = node1.attributes();
     let attrs2 = node2.attributes();
-- 
2.43.0


From a34f7d05f11bd8377c9e7175ade73003996c728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 14/25] fix: do not panic on a gradient offset with units

---
 src/task/resolve_gradients.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index 653aa44..eccfc8e 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -121,6 +121,10 @@ pub fn resolve_stop_attributes(doc: &Document) -> Result<()> {
                     // convert percent into a number
                     let new_l = Length::new_number(l.num / 100.0);
                     node.set_attribute((AId::Offset, new_l));
+                } else if l.unit != LengthUnit::None {
+                    warn!("The 'offset' attribute must be a number or a percentage. \
+                           Fallback to 'offset=0'.");
+                    node.set_attribute((AId::Offset, Length::zero()));
                 }
             } else {
                 if idx == 0 {
-- 
2.43.0


From a4c2a7626e24b6ac71695a310c4b7f7079e915b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:05 +0000
Subject: [PATCH 15/25] fix: write every message at once

Messages were written to the unbuffered stderr piece by piece, so messages of
processes that share it (a shell job, make -j, xargs -P) were mixed up.
---
 src/cli.rs  | 6 ++++--
 src/main.rs | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 6ee9754..bc3896b 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -352,8 +352,10 @@ pub fn check_values(args: &ArgMatches) -> bool {
 
     fn check_value(args: &ArgMatches, flag: Key, dep: Key) -> bool {
         if !get_flag(args, flag) && get_flag(args, dep) {
-            let _ = writeln!(stderr(), "Error: You can use '--{}=true' only with '--{}=true'.",
-                             KEYS[dep], KEYS[flag]);
+            // Write it at once, because 'stderr' can be shared with other processes.
+            let msg = format!("Error: You can use '--{}=true' only with '--{}=true'.\n",
+                              KEYS[dep], KEYS[flag]);
+            let _ = stderr().write_all(msg.as_bytes());
             return false;
         }
         true
diff --git a/src/main.rs b/src/main.rs
index ffcc821..b154b9b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,9 +49,13 @@ use svgcleaner::{
 ///
 /// A message that can't be printed must not affect the result,
 /// so errors are ignored.
+///
+/// 'stderr' is not buffered, so a message must be written at once.
+/// Otherwise it will be mixed up with messages of other processes.
 macro_rules! print_msg {
     ($($arg:tt)*) => ({
-        let _ = writeln!(stderr(), $($arg)*);
+        let msg = format!("{}\n", format_args!($($arg)*));
+        let _ = stderr().write_all(msg.as_bytes());
     })
 }
 
-- 
2.43.0


From 659624402d941e462ec2e432ad6de69c0ff98832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 16/25] fix: do not panic when the main 'defs' element was
 removed as an invisible one

---
 src/task/rm_unused_defs.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_unused_defs.rs b/src/task/rm_unused_defs.rs
index c05084c..cd7ffa9 100644
--- a/src/task/rm_unused_defs.rs
+++ b/src/task/rm_unused_defs.rs
@@ -24,8 +24,11 @@ use svgdom::{
 use task::short::EId;
 
 pub fn remove_unused_defs(doc: &Document) {
-    // Unwrap is safe, because 'defs' already had been created in 'group_defs'.
-    let mut defs = doc.descendants().filter(|n| n.is_tag_name(EId::Defs)).nth(0).unwrap();
+    // 'defs' had been created in 'group_defs', but it can be removed as an invisible element.
+    let mut defs = match doc.descendants().filter(|n| n.is_tag_name(EId::Defs)).nth(0) {
+        Some(n) => n,
+        None => return,
+    };
 
     // Repeat until no unused nodes left.
     while remove_unused_defs_impl(&mut defs) { }
-- 
2.43.0


From 90a934e0e1e13a0dd6fa65b5e42c6170503ff0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 17/25] fix: unlink referenced elements when attributes are
 removed

---
 src/task/join_style_attrs.rs  | 13 +++++--------
 src/task/rm_needless_attrs.rs | 25 ++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index 1d2cbd6..4b2a160 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -42,10 +42,9 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
         // 5 - is an amount of attributes when style notation is becoming more efficient than
         // split attributes.
         if (mode == StyleJoinMode::Some && count > 5) || mode == StyleJoinMode::All {
-            let mut attrs = node.attributes_mut();
             let mut ids = Vec::new();
             let mut style = Vec::new();
-            for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| a.is_presentation()) {
+            for (aid, attr) in node.attributes().iter_svg().filter(|&(_, a)| a.is_presentation()) {
                 if !attr.visible {
                     continue;
                 }
@@ -61,13 +60,11 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
 
             // Unwrap can't fail.
             let style_str = String::from_utf8(style).unwrap();
-            attrs.insert_from(AId::Style, style_str);
+            node.set_attribute((AId::Style, style_str));
 
-            for id in ids {
-                // Use "private" method, because we breaking linking on purpose.
-                // Default 'remove()' will panic here.
-                attrs.remove_impl(id);
-            }
+            // Must be unlinked too, because a link to a removed attribute
+            // leads to a panic during the document destruction.
+            node.remove_attributes(&ids);
         }
     }
 }
diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index 184ce33..16023fb 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -18,6 +18,7 @@
 
 use svgdom::{
     Attribute,
+    AttributeName,
     AttributeType,
     AttributeValue,
     Document,
@@ -83,7 +84,7 @@ fn process_clip_path(node: &Node) {
 
 fn process_rect(node: &mut Node) {
     // Remove all non-rect attributes.
-    node.attributes_mut().retain(|a| {
+    retain_attributes(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::X)
         || a.has_id(AId::Y)
@@ -96,7 +97,7 @@ fn process_rect(node: &mut Node) {
 
 fn process_circle(node: &mut Node) {
     // Remove all non-circle attributes.
-    node.attributes_mut().retain(|a| {
+    retain_attributes(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::Cx)
         || a.has_id(AId::Cy)
@@ -106,7 +107,7 @@ fn process_circle(node: &mut Node) {
 
 fn process_ellipse(node: &mut Node) {
     // Remove all non-ellipse attributes.
-    node.attributes_mut().retain(|a| {
+    retain_attributes(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::Cx)
         || a.has_id(AId::Cy)
@@ -117,7 +118,7 @@ fn process_ellipse(node: &mut Node) {
 
 fn process_line(node: &mut Node) {
     // Remove all non-line attributes.
-    node.attributes_mut().retain(|a| {
+    retain_attributes(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::X1)
         || a.has_id(AId::Y1)
@@ -128,12 +129,26 @@ fn process_line(node: &mut Node) {
 
 fn process_poly(node: &mut Node) {
     // Remove all non-polyline/polygon attributes.
-    node.attributes_mut().retain(|a| {
+    retain_attributes(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::Points)
     });
 }
 
+// `Attributes::retain` doesn't unlink removed attributes.
+fn retain_attributes<P>(node: &mut Node, f: P)
+    where P: Fn(&Attribute) -> bool
+{
+    let names: Vec<AttributeName> = node.attributes().iter()
+                                        .filter(|a| !f(a))
+                                        .map(|a| a.name.clone())
+                                        .collect();
+
+    for name in &names {
+        node.remove_attribute(name.into_ref());
+    }
+}
+
 fn is_basic_shapes_attr(a: &Attribute) -> bool {
     // List of common basic shapes attributes.
     // https://www.w3.org/TR/SVG/shapes.html#RectElement
-- 
2.43.0


From 0b7b36fd6291f32a7b835957d0c4a147c8473ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 18/25] fix: refuse an element that would inherit a link to
 itself

---
 src/cleaner.rs              |  2 +-
 src/task/group_defs.rs      | 14 ++++++++++----
 src/task/resolve_inherit.rs |  4 ++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/cleaner.rs b/src/cleaner.rs
index 42dd4d7..e93adf0 100644
--- a/src/cleaner.rs
+++ b/src/cleaner.rs
@@ -79,7 +79,7 @@ pub fn clean_doc(
 
     resolve_inherit(doc)?;
     fix_invalid_attributes(doc);
-    group_defs(doc);
+    group_defs(doc)?;
 
     // Round numbers before everything else.
     round_numbers(doc, options);
diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 48a1e7f..b98b97b 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -24,8 +24,9 @@ use svgdom::{
 };
 
 use task::short::EId;
+use error::Result;
 
-pub fn group_defs(doc: &mut Document) {
+pub fn group_defs(doc: &mut Document) -> Result<()> {
     // doc must contain 'svg' node, so we can safely unwrap.
     let mut svg = doc.svg_element().unwrap();
 
@@ -56,7 +57,7 @@ pub fn group_defs(doc: &mut Document) {
         }
 
         for n in &mut nodes {
-            resolve_attrs(n);
+            resolve_attrs(n)?;
             n.detach();
             defs.append(n);
         }
@@ -94,11 +95,13 @@ pub fn group_defs(doc: &mut Document) {
             n.remove();
         }
     }
+
+    Ok(())
 }
 
 // Graphical elements inside referenced elements inherits parent attributes,
 // so if we want to move this elements to the 'defs' - we should resolve attributes too.
-fn resolve_attrs(node: &Node) {
+fn resolve_attrs(node: &Node) -> Result<()> {
     match node.tag_id().unwrap() {
           EId::ClipPath
         | EId::Marker
@@ -114,7 +117,8 @@ fn resolve_attrs(node: &Node) {
                             continue;
                         }
 
-                        child.set_attribute(attr.clone());
+                        // Children can't inherit a link to itself.
+                        child.set_attribute_checked(attr.clone())?;
                     }
                 }
 
@@ -123,6 +127,8 @@ fn resolve_attrs(node: &Node) {
         }
         _ => {}
     }
+
+    Ok(())
 }
 
 #[cfg(test)]
diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index aa13dae..05b9432 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -63,7 +63,7 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
         for id in &vec_curr_color {
             let av = node.attributes().get_value(AttributeId::Color).cloned();
             if let Some(av) = av {
-                node.set_attribute((*id, av.clone()));
+                node.set_attribute_checked((*id, av.clone()))?;
             } else {
                 resolve_impl(&mut node, *id, AttributeId::Color)?;
             }
@@ -77,7 +77,7 @@ fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeI
     if let Some(n) = node.parents().find(|n| n.has_attribute(parent_attr)) {
         let av = n.attributes().get_value(parent_attr).cloned();
         if let Some(av) = av {
-            node.set_attribute((curr_attr, av.clone()));
+            node.set_attribute_checked((curr_attr, av.clone()))?;
         }
 
         Ok(())
-- 
2.43.0


From a039a643dde1c69fb3540f3dd6142fa23bbc5f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:21 +0000
Subject: [PATCH 19/25] fix: never remove the root element as invisible

---
 src/task/rm_invisible_elems.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 96c3b20..7329091 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -80,6 +80,10 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     // Note, that all elements that uses this clip path also became invisible,
     // so we can remove them as well.
     while let Some(mut n) = clip_paths.pop() {
+        if is_used_by_root(doc, &n) {
+            continue;
+        }
+
         for mut link in n.linked_nodes().collect::<Vec<Node>>() {
             link.remove();
         }
@@ -128,7 +132,8 @@ fn process_paths(doc: &mut Document, is_any_removed: &mut bool) {
 fn process_display_attribute(doc: &Document, is_any_removed: &mut bool) {
     let mut nodes = Vec::with_capacity(16);
 
-    _process_display_attribute(&doc.root(), &mut nodes, is_any_removed);
+    // The root element can't be removed.
+    _process_display_attribute(&doc.svg_element().unwrap(), &mut nodes, is_any_removed);
 
     if !nodes.is_empty() {
         *is_any_removed = true;
@@ -166,6 +171,10 @@ fn process_empty_filter(doc: &Document, is_any_removed: &mut bool) {
     // Note, that all elements that uses this filter also became invisible,
     // so we can remove them as well.
     for n in &mut nodes {
+        if is_used_by_root(doc, n) {
+            continue;
+        }
+
         for mut link in n.linked_nodes().collect::<Vec<Node>>() {
             link.remove();
         }
@@ -173,6 +182,13 @@ fn process_empty_filter(doc: &Document, is_any_removed: &mut bool) {
     }
 }
 
+// The root element can't be removed, so an element it refers to must be kept too.
+fn is_used_by_root(doc: &Document, node: &Node) -> bool {
+    let svg = doc.svg_element().unwrap();
+    let is_used = node.linked_nodes().any(|n| n == svg);
+    is_used
+}
+
 // Remove feColorMatrix with default values.
 fn process_fe_color_matrix(doc: &mut Document) {
     fn is_default_matrix(node: &Node) -> bool {
-- 
2.43.0


From b475a9160f42c3fd0e5b9f466c41fda29fc96652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:03 +0000
Subject: [PATCH 20/25] fix: skip a use element that was removed with an
 enclosing one

---
 src/task/resolve_use.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index b0bb5ea..5a7133e 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -65,6 +65,11 @@ pub fn resolve_use(doc: &Document) {
     }
 
     for (mut node, mut link) in nodes {
+        // Unlinked together with an enclosing 'use' that was already removed.
+        if !node.has_attribute(AId::XlinkHref) {
+            continue;
+        }
+
         // An element can't be moved into itself.
         if node.parents().any(|n| n == link) {
             continue;
-- 
2.43.0


From ddfc8973a7b4116e5625b346cd2cb1c4e92d60c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:21 +0000
Subject: [PATCH 21/25] fix: order gradients by 'xlink:href' references only

Other references between gradients, like 'fill', can be cyclic
and then gen_order() never ends.
---
 src/task/resolve_gradients.rs | 4 +++-
 src/task/utils.rs             | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index eccfc8e..a4c128f 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -29,6 +29,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 use error::{
     ErrorKind,
@@ -170,8 +171,9 @@ fn gen_order(doc: &Document, eid: EId) -> Vec<Node> {
 
             // A referencing gradient can be already removed from the document,
             // so we should check only those that we are going to process.
+            // Other references, like 'fill', do not impact the resolving and can be cyclic.
             let c = node.linked_nodes().filter(|n| {
-                nodes.contains(n) && !order.iter().any(|on| on == n)
+                utils::is_href(n, node) && nodes.contains(n) && !order.iter().any(|on| on == n)
             }).count();
 
             if c == 0 {
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 26deec5..1bef8e6 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -24,6 +24,14 @@ use svgdom::{
 
 use task::short::AId;
 
+// Checks that `node` references `link` via the 'xlink:href' attribute.
+pub fn is_href(node: &Node, link: &Node) -> bool {
+    match node.attributes().get_value(AId::XlinkHref) {
+        Some(&AttributeValue::Link(ref n)) => n == link,
+        _ => false,
+    }
+}
+
 pub fn recalc_stroke(node: &mut Node, scale_factor: f64) {
     recalc_stroke_num(node, AId::StrokeWidth, scale_factor);
     recalc_stroke_dasharray(node, scale_factor);
-- 
2.43.0


From 7cade342770504035ff41599a83faefc33032798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:50 +0000
Subject: [PATCH 22/25] fix: count 'xlink:href' references only in
 remove_gradient_attributes

A gradient referenced by another gradient in a different way, like 'fill',
never became unused, which led to an infinite loop.
---
 src/task/rm_gradient_attrs.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/task/rm_gradient_attrs.rs b/src/task/rm_gradient_attrs.rs
index 4d884ad..8cfd832 100644
--- a/src/task/rm_gradient_attrs.rs
+++ b/src/task/rm_gradient_attrs.rs
@@ -25,6 +25,7 @@ use svgdom::{
 };
 
 use task::short::AId;
+use task::utils;
 
 pub fn remove_gradient_attributes(doc: &Document) {
     // TODO: process coordinates and transform
@@ -40,10 +41,14 @@ fn process_units(doc: &Document) {
 // If a gradient has the same 'gradientUnits' value as a parent
 // we can remove such attribute.
 fn rm_equal(doc: &Document) {
+    let nodes: Vec<Node> = doc.descendants().filter(|n|    n.is_gradient()
+                                                        && n.has_attribute(AId::XlinkHref))
+                              .collect();
+
     let mut order = Vec::new();
-    for node in doc.descendants().filter(|n|    n.is_gradient()
-                                             && n.has_attribute(AId::XlinkHref)) {
-        let c = node.linked_nodes().filter(|n| n.is_gradient()).count();
+    for node in &nodes {
+        // Only references that are processed below must be counted.
+        let c = nodes.iter().filter(|n| utils::is_href(n, node)).count();
         // The gradient element and count of gradient elements than uses it.
         order.push((node.clone(), c));
     }
-- 
2.43.0


From 01b597b76e3433ea20814ff45c22e35efffaa264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:11 +0000
Subject: [PATCH 23/25] fix: do not create mutual references while removing
 duplicates

svgdom panics when an element is linked to an element that references it.
---
 src/task/rm_dupl_defs/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index cf9fbfa..3e2cae6 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -67,6 +67,11 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
                 continue;
             }
 
+            // svgdom does not allow elements to reference each other.
+            if node2.linked_nodes().any(|n| n.linked_nodes().any(|ln| ln == node1)) {
+                continue;
+            }
+
             // Collect linked nodes.
             for ln in node2.linked_nodes() {
                 let attrs = ln.attributes();
-- 
2.43.0


From 5c96144838d8de3a05a6b0b1436d5e5822138401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:47 +0000
Subject: [PATCH 24/25] fix: report arguments that are not valid UTF-8

clap panics on them, both while parsing options and in value_of().
---
 src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index b154b9b..9bba29d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -78,6 +78,12 @@ fn main() {
         .chain(fern::Output::call(|record| print_msg!("{}", record.args())))
         .apply().unwrap();
 
+    // clap panics on such arguments.
+    if std::env::args_os().skip(1).any(|a| a.to_str().is_none()) {
+        print_msg!("Error: all arguments should be valid UTF-8.");
+        std::process::exit(1);
+    }
+
     let app = cli::prepare_app();
     let args = match app.get_matches_safe() {
         Ok(a) => a,
-- 
2.43.0


From 86da2bcb3fa0da5c74ccedf048b61d8e1ee269c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:28 +0000
Subject: [PATCH 25/25] fix: do not move references to elements that can't have
 them

svgdom panics when an element is linked to an element with the same ID
or to an element that references it.
---
 src/task/group_by_style.rs |  6 ++++++
 src/task/ungroup_groups.rs |  7 ++++++-
 src/task/utils.rs          | 14 ++++++++++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index e584f43..b10d95a 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -31,6 +31,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 // TODO: optimize, since Table is basically Vec<(Vec,Vec)>, which is not very efficient
 struct Table {
@@ -433,6 +434,11 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
                 continue;
             }
 
+            // The parent element can be used as a group.
+            if !utils::can_link(parent, attr) {
+                continue;
+            }
+
             // Append only unique attributes.
             if !table.d.iter().any(|x| x.attributes[0] == *attr) {
                 table.append(attr, nodes_count);
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index e9e03e6..83ee765 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -23,7 +23,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
-use task::apply_transforms;
+use task::{apply_transforms, utils};
 use options::CleaningOptions;
 
 pub fn ungroup_groups(doc: &Document, opt: &CleaningOptions) {
@@ -83,6 +83,11 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
         return false;
     }
 
+    // Children will inherit all attributes, so they must be able to.
+    if g.attributes().iter().any(|a| g.children().any(|n| !utils::can_link(&n, a))) {
+        return false;
+    }
+
     // The 'clipPath' doesn't support 'g' elements, but some editors still insert them.
     // Correct render application will skip a 'g' element and all it's children,
     // so if we ungroup this group we will actually enable clipping.
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 1bef8e6..0a553fe 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -17,6 +17,7 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeValue,
     FuzzyEq,
     Node,
@@ -32,6 +33,19 @@ pub fn is_href(node: &Node, link: &Node) -> bool {
     }
 }
 
+// Checks that `attr` can be set to `node`.
+//
+// svgdom does not allow an element to reference an element with the same ID
+// or an element that references it.
+pub fn can_link(node: &Node, attr: &Attribute) -> bool {
+    match attr.value {
+        AttributeValue::Link(ref link) | AttributeValue::FuncLink(ref link) => {
+            *node.id() != *link.id() && !node.linked_nodes().any(|n| n == *link)
+        }
+        _ => true,
+    }
+}
+
 pub fn recalc_stroke(node: &mut Node, scale_factor: f64) {
     recalc_stroke_num(node, AId::StrokeWidth, scale_factor);
     recalc_stroke_dasharray(node, scale_factor);
-- 
2.43.0

