From 66affaf37f253b7898cd086197681a8d05e638db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:53 +0000
Subject: [PATCH 01/79] hook: sort memory budget can be set in simulation
 builds (cfg cdx_sim)

---
 src/sort.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sort.rs b/src/sort.rs
index 5a3a592..d911c95 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -297,7 +297,7 @@ impl SortConfig {
         unique: bool,
     ) -> Result<()> // maybe return some useful stats?
     {
-        let mut s = Sorter::new(cmp, 500_000_000, unique);
+        let mut s = Sorter::new(cmp, sort_budget(), unique);
         for fname in files {
             s.add_file(fname, w)?;
         }
@@ -307,6 +307,20 @@ impl SortConfig {
     }
 }
 
+/// memory to be used by a sort
+#[allow(unexpected_cfgs)]
+fn sort_budget() -> usize {
+    // simulation hook : compiled only with --cfg cdx_sim
+    #[cfg(cdx_sim)]
+    if let Some(x) = std::env::var("CDX_SIM_SORT_BUDGET")
+        .ok()
+        .and_then(|x| x.parse().ok())
+    {
+        return x;
+    }
+    500_000_000
+}
+
 /// Large block of text and pointers to lines therein
 #[allow(missing_debug_implementations)]
 pub struct Sorter {
-- 
2.43.0


From d126373a3e8dd2e4123bd5c34b79f4a6e0443769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:09 +0000
Subject: [PATCH 02/79] fix: recognize gzip and CDX headers however few bytes
 each read returns

get_reader() and read_header() looked only at the first fill_buf(), so a
short first read (or a tiny first gzip member) hid the header.
---
 src/util.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 297475d..63aea97 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1252,14 +1252,38 @@ pub fn get_reader(name: &str) -> Result<Infile> {
             Box::new(fs::File::open(name)?)
         }
     };
-    let mut outer = io::BufReader::new(inner);
-    let start = outer.fill_buf()?;
-    if start.starts_with(&[0x1fu8, 0x8bu8, 0x08u8]) {
-        outer = io::BufReader::new(Box::new(MultiGzDecoder::new(outer)));
+    let (mut outer, is_gzip) = sniff(inner)?;
+    if is_gzip {
+        outer = sniff(Box::new(MultiGzDecoder::new(outer)))?.0;
     }
     Ok(Infile::new(outer, name))
 }
 
+const GZIP_MAGIC: &[u8] = &[0x1fu8, 0x8bu8, 0x08u8];
+const CDX_MAGIC: &[u8] = b" CDX";
+
+/// Buffer the start of the file, at least until it either is or cannot be
+/// a gzip or CDX header, no matter how few bytes each read returns.
+/// The bool is true if this is a gzip file.
+fn sniff(mut inner: Box<dyn Read>) -> Result<(io::BufReader<Box<dyn Read>>, bool)> {
+    let mut start = Vec::new();
+    let mut buff = [0u8; 8 * 1024];
+    loop {
+        let sz = match inner.read(&mut buff) {
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            x => x?,
+        };
+        start.extend_from_slice(&buff[..sz]);
+        let more = |magic: &[u8]| start.len() < magic.len() && magic.starts_with(&start);
+        if sz == 0 || !(more(GZIP_MAGIC) || more(CDX_MAGIC)) {
+            break;
+        }
+    }
+    let is_gzip = start.starts_with(GZIP_MAGIC);
+    let inner: Box<dyn Read> = Box::new(io::Cursor::new(start).chain(inner));
+    Ok((io::BufReader::new(inner), is_gzip))
+}
+
 #[derive(Debug, Default)]
 /// shared context for any input file type
 pub struct InfileContext {
-- 
2.43.0


From 1adaa9a705cbab6e2e08cff5d4d2728fd1ab3d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:24 +0000
Subject: [PATCH 03/79] fix: retry reads that are interrupted by a signal

A read returning EINTR made cat, sort and merge fail, and every command
fail if it happened to the very first read.
---
 src/bin/cdx/cat_main.rs |  5 ++++-
 src/sort.rs             |  5 ++++-
 src/util.rs             | 29 +++++++++++++++++++++--------
 3 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 0e369b0..7ba78dd 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -193,7 +193,10 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 last_was_cr = first_line.last().unwrap() == &b'\n';
             }
             loop {
-                let n = f.read(&mut buffer[..])?;
+                let n = match f.read(&mut buffer[..]) {
+                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                    x => x?,
+                };
                 if n == 0 {
                     break;
                 }
diff --git a/src/sort.rs b/src/sort.rs
index d911c95..a467098 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -425,7 +425,10 @@ impl Sorter {
             const SIZE: usize = 16 * 1024;
             let sz = self.prepare(SIZE);
             debug_assert!(sz > 0);
-            let nbytes = r.read(&mut self.data[self.data_used..self.data_used + sz])?;
+            let nbytes = match r.read(&mut self.data[self.data_used..self.data_used + sz]) {
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                x => x?,
+            };
             if nbytes == 0 {
                 if self.data_used > 0 && self.data[self.data_used - 1] != b'\n' {
                     self.data[self.data_used] = b'\n';
diff --git a/src/util.rs b/src/util.rs
index 63aea97..1d23163 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -394,8 +394,8 @@ impl TextFileMode {
     /// read a line, dealing with quotes if necessary. Return true if file empty
     pub fn read_header<T: BufRead>(&self, f: &mut T, line: &mut String) -> Result<bool> {
         line.clear();
-        let start = f.fill_buf()?;
-        if start.is_empty() {
+        let (is_empty, is_cdx) = Self::peek(f)?;
+        if is_empty {
             return Ok(true);
         }
         match self.head_mode {
@@ -403,20 +403,30 @@ impl TextFileMode {
             HeadMode::Cdx => self.read_string(f, line),
             HeadMode::No => Ok(false),
             HeadMode::Maybe => {
-                if start.starts_with(b" CDX") {
+                if is_cdx {
                     self.read_string(f, line)
                 } else {
                     Ok(false)
                 }
             }
             HeadMode::Skip => {
-                let start = f.fill_buf()?;
-                if start.starts_with(b" CDX") {
+                if is_cdx {
                     self.read_string(f, line)?;
                     line.clear();
                 }
-                let start = f.fill_buf()?;
-                Ok(start.is_empty())
+                Ok(Self::peek(f)?.0)
+            }
+        }
+    }
+    /// Are we at end of file? Does a CDX header come next?
+    fn peek<T: BufRead>(f: &mut T) -> Result<(bool, bool)> {
+        loop {
+            match f.fill_buf() {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+                x => {
+                    let start = x?;
+                    return Ok((start.is_empty(), start.starts_with(CDX_MAGIC)));
+                }
             }
         }
     }
@@ -2052,7 +2062,10 @@ impl HeaderChecker {
 pub fn copy(mut r: impl Read, mut w: impl Write) -> Result<()> {
     let mut buff = [0u8; 16 * 1024];
     loop {
-        let sz = r.read(&mut buff)?;
+        let sz = match r.read(&mut buff) {
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            x => x?,
+        };
         if sz == 0 {
             return Ok(());
         }
-- 
2.43.0


From 8abfde7b459e00f0f8aabfb1ff1fb7bd43b2e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:24 +0000
Subject: [PATCH 04/79] fix: cat looked at the first line of a file to decide
 if the last line needs a newline

---
 src/bin/cdx/cat_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 7ba78dd..4535e2f 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -201,7 +201,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     break;
                 }
                 w.write_all(&buffer[..n])?;
-                last_was_cr = first_line.last().unwrap() == &b'\n';
+                last_was_cr = buffer[n - 1] == b'\n';
             }
             if pad == PadMode::All && !last_was_cr {
                 w.write_all(b"\n")?;
-- 
2.43.0


From bef9f2671e619b581b7880b7300d9e5c2c70af58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:24 +0000
Subject: [PATCH 05/79] fix: a file with only a header no longer hides the
 files after it in cat, sample and wc

---
 src/bin/cdx/cat_main.rs    | 2 +-
 src/bin/cdx/sample_main.rs | 2 +-
 src/bin/cdx/wc_main.rs     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 4535e2f..8a70cd1 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -160,7 +160,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 w.write_all(not_header.as_bytes())?;
             }
             if f.is_done() {
-                return Ok(());
+                continue;
             }
             f.do_split(false);
             loop {
diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index ccebd91..23ec2aa 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -141,7 +141,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(f.header().line.as_bytes())?;
         }
         if f.is_done() {
-            return Ok(());
+            continue;
         }
         f.do_split(false);
         if saw_sample {
diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index a70ea1e..8f2e371 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -107,7 +107,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 }
             }
             if f.is_done() {
-                break;
+                continue;
             }
             loop {
                 for (i, x) in f.curr_line().iter().enumerate() {
-- 
2.43.0


From a1fe06efbe216dc1ce8ac45248d1beca6c1439be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:24 +0000
Subject: [PATCH 06/79] fix: report errors writing the last buffered output
 instead of exiting successfully

The BufWriter from get_writer() was dropped without a flush, so an error
writing the last 8K (usually all) of the output was lost.
---
 src/bin/cdx/binsearch_main.rs | 1 +
 src/bin/cdx/cat_main.rs       | 1 +
 src/bin/cdx/cgrep_main.rs     | 1 +
 src/bin/cdx/cut_main.rs       | 1 +
 src/bin/cdx/filegen_main.rs   | 1 +
 src/bin/cdx/main.rs           | 3 ++-
 src/bin/cdx/paste_main.rs     | 1 +
 src/bin/cdx/sample_main.rs    | 1 +
 src/bin/cdx/sort_main.rs      | 1 +
 src/bin/cdx/uniq_main.rs      | 2 ++
 src/bin/cdx/wc_main.rs        | 1 +
 src/join.rs                   | 4 ++++
 src/sort.rs                   | 1 +
 src/tabs.rs                   | 1 +
 src/tooltest.rs               | 3 +++
 src/transpose.rs              | 1 +
 16 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 7faf54e..e6475d4 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -180,5 +180,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 8a70cd1..065a5c0 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -212,5 +212,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(b"\n")?;
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index 7e3da09..55048dd 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -71,5 +71,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/cut_main.rs b/src/bin/cdx/cut_main.rs
index b94ad97..0d3dd4f 100644
--- a/src/bin/cdx/cut_main.rs
+++ b/src/bin/cdx/cut_main.rs
@@ -64,5 +64,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/filegen_main.rs b/src/bin/cdx/filegen_main.rs
index 4a74263..cc1834a 100644
--- a/src/bin/cdx/filegen_main.rs
+++ b/src/bin/cdx/filegen_main.rs
@@ -53,5 +53,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     for _i in 0..num_lines {
         list.write(&mut w.0, b'\t')?;
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/main.rs b/src/bin/cdx/main.rs
index f617e94..2e3bd4f 100644
--- a/src/bin/cdx/main.rs
+++ b/src/bin/cdx/main.rs
@@ -26,7 +26,8 @@ use crate::globals::Settings;
 
 fn main() {
     let mut settings = Settings::new();
-    match inner_main(env::args().collect(), &mut settings) {
+    let res = inner_main(env::args().collect(), &mut settings);
+    match res.and_then(|()| Ok(std::io::stdout().flush()?)) {
         Err(e) => {
             if suppress(&e) {
                 std::process::exit(0);
diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 0ac2311..383379a 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -152,5 +152,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index 23ec2aa..0e0eb8c 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -176,5 +176,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/sort_main.rs b/src/bin/cdx/sort_main.rs
index f0d6b3e..0ca7adb 100644
--- a/src/bin/cdx/sort_main.rs
+++ b/src/bin/cdx/sort_main.rs
@@ -80,6 +80,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else {
             config.sort(&files, comp, &mut w.0, unique)?;
         }
+        w.flush()?;
     }
     Ok(())
 }
diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 88822ac..14293c2 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -226,6 +226,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         w.write_all(ch.get_head(&settings.text_out()).as_bytes())?;
     }
     if f.is_done() {
+        w.flush()?;
         return Ok(());
     }
 
@@ -289,5 +290,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 8f2e371..ffe5692 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -243,5 +243,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/join.rs b/src/join.rs
index c7f9a94..b0934af 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -319,6 +319,10 @@ impl Joiner {
             }
             self.r[1].getline()?;
         }
+        self.yes_match.flush()?;
+        for x in self.no_match.iter_mut().flatten() {
+            x.flush()?;
+        }
         Ok(())
     }
 }
diff --git a/src/sort.rs b/src/sort.rs
index a467098..29e32bd 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -471,6 +471,7 @@ impl Sorter {
         for &x in &self.ptrs {
             new_w.write_all(x.get(&self.data))?;
         }
+        new_w.flush()?;
         self.tmp_files.push(tmp_name.to_string());
         self.ptrs.clear();
         let nsize = self.data.len() - self.data_calc;
diff --git a/src/tabs.rs b/src/tabs.rs
index dd64fc7..fc24973 100644
--- a/src/tabs.rs
+++ b/src/tabs.rs
@@ -127,6 +127,7 @@ pub fn show(file: &str, screen: &Rect, text: &TextFileMode) -> Result<()> {
         do_center = false;
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
 
diff --git a/src/tooltest.rs b/src/tooltest.rs
index 5a2b52f..61c28b4 100644
--- a/src/tooltest.rs
+++ b/src/tooltest.rs
@@ -267,6 +267,7 @@ impl Test {
             fname.push_str(&x.name);
             let mut w = get_writer(&fname)?;
             w.write_all(&x.content)?;
+            w.flush()?;
         }
         let mut tmp_stdin = tmp.clone();
         tmp_stdin.push_str("stdin");
@@ -381,10 +382,12 @@ impl Test {
             fname.push_str("stdout");
             let mut w = get_writer(&fname)?;
             w.write_all(&output.stdout)?;
+            w.flush()?;
             fname.clone_from(&tmp);
             fname.push_str("stderr");
             w = get_writer(&fname)?;
             w.write_all(&output.stderr)?;
+            w.flush()?;
         }
         if failed {
             prerr(&[b"Test ", self.name.as_bytes(), b" failed ", &self.cmd]);
diff --git a/src/transpose.rs b/src/transpose.rs
index a9d4daf..c7a1b7b 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -38,5 +38,6 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
         }
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
-- 
2.43.0


From 885e60988814f9d8266712be7532820e5a43799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:26 +0000
Subject: [PATCH 07/79] fix: truncate output files, so that nothing of a longer
 older file remains

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 1d23163..dcb75eb 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1217,7 +1217,7 @@ pub fn get_writer(name: &str) -> Result<Outfile> {
         } else if name == "--" {
             Box::new(io::stderr())
         } else {
-            Box::new(fs::OpenOptions::new().write(true).create(true).open(name)?)
+            Box::new(fs::File::create(name)?)
         }
     };
     Ok(Outfile::new(io::BufWriter::new(inner), name))
-- 
2.43.0


From 4049952c09c47e51ebe10c6e87b272a67072c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:27 +0000
Subject: [PATCH 08/79] fix: tabs panicked when its output could not be
 written, even for a closed pipe

---
 src/bin/cdx/tabs_main.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/bin/cdx/tabs_main.rs b/src/bin/cdx/tabs_main.rs
index ae42ba1..9ef042c 100644
--- a/src/bin/cdx/tabs_main.rs
+++ b/src/bin/cdx/tabs_main.rs
@@ -2,13 +2,14 @@ use crate::prelude::*;
 use cdx::prelude::*;
 use cdx::tabs;
 
-fn print_centered(txt: &str, width: usize) {
+fn print_centered(w: &mut impl Write, txt: &str, width: usize) -> Result<()> {
     if txt.len() > width {
     } else {
         let left = (width - txt.len()) / 2;
         let right = width - txt.len() - left;
-        println!("{: <3$}{}{: <4$}", "", txt, "", left, right);
+        writeln!(w, "{: <3$}{}{: <4$}", "", txt, "", left, right)?;
     }
+    Ok(())
 }
 
 pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
@@ -28,6 +29,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     if end {
         eprintln!();
     }
+    let mut w = get_writer("-")?;
     if files.len() == 1 {
         let mut v = Vec::new();
         tabs::show2(
@@ -37,7 +39,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             &settings.text_in,
         )?;
         for x in v {
-            println!("{}", x);
+            writeln!(w, "{}", x)?;
         }
     } else {
         let base_rect = tabs::Rect::from_screen();
@@ -47,16 +49,17 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             let mut v = Vec::new();
             let r = tabs::Rect::new(base_rect.width, lines_left / files_left);
             let real = tabs::show2(x, &r, &mut v, &settings.text_in)?;
-            print_centered(x, real);
+            print_centered(&mut w.0, x, real)?;
             for x in &v {
-                println!("{}", x);
+                writeln!(w, "{}", x)?;
             }
             lines_left -= v.len();
             files_left -= 1;
             if files_left > 0 {
-                println!("{:-<1$}", "", real);
+                writeln!(w, "{:-<1$}", "", real)?;
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
-- 
2.43.0


From 42fd71b343dc320ee00eb8986eb14037ba51bce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:13 +0000
Subject: [PATCH 09/79] fix: a closed pipe while writing a line number or
 offset no longer panics

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index dcb75eb..fdcf64f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1419,8 +1419,8 @@ impl FileLocItem {
     }
     fn write_data(&mut self, data: &mut impl Write, loc: &FileLocData) -> Result<()> {
         match self {
-            Self::Bytes => write!(data, "{}", loc.bytes).unwrap(),
-            Self::Line => write!(data, "{}", loc.line).unwrap(),
+            Self::Bytes => write!(data, "{}", loc.bytes)?,
+            Self::Line => write!(data, "{}", loc.line)?,
             Self::Name(n) => {
                 if *n == 0 {
                     data.write_all(loc.name.as_bytes())?;
-- 
2.43.0


From 850f972ff17867e1c784046c7ab1962fe8a7dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:16 +0000
Subject: [PATCH 10/79] fix: sort lost data or panicked when a line was longer
 than, or exactly filled, its buffer

When the buffer was exactly full the next read had no room, returned zero bytes
and was taken for the end of the file; the first line of a file that did not
fit failed with Badness; a line longer than the buffer panicked.
---
 src/sort.rs | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 29e32bd..43540cd 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -350,6 +350,8 @@ pub struct Sorter {
 }
 
 const MAX_DATA: usize = 0x0000_ffff_ff00;
+// Item::size_plus has only 31 bits for the size
+const MAX_LINE: usize = 0x0000_7fff_ff00;
 
 impl Sorter {
     /// new Sorter
@@ -406,23 +408,43 @@ impl Sorter {
 
     /// add some more data to be sorted.
     /// must be integer number of lines.
-    pub fn add_data(&mut self, in_data: &[u8]) -> Result<()> {
-        let sz = self.prepare(in_data.len());
-        if sz != in_data.len() {
-            eprintln!("Failed to prepare {}, only got {}", in_data.len(), sz);
-            return err!("Badness");
-        }
-        self.data[self.data_used..self.data_used + in_data.len()].copy_from_slice(in_data);
-        self.data_used += in_data.len();
+    pub fn add_data(&mut self, mut in_data: &[u8]) -> Result<()> {
+        while !in_data.is_empty() {
+            self.make_room()?;
+            let sz = self.prepare(in_data.len());
+            self.data[self.data_used..self.data_used + sz].copy_from_slice(&in_data[..sz]);
+            self.data_used += sz;
+            in_data = &in_data[sz..];
+        }
         // FIXME - add newline
         Ok(())
     }
+    /// If the buffer is full, write all the complete lines to a temporary file.
+    /// If that doesn't help, then one line is bigger than the buffer, so make the buffer bigger.
+    fn make_room(&mut self) -> Result<()> {
+        if self.data_used >= self.data.capacity() {
+            self.calc();
+            if !self.ptrs.is_empty() {
+                self.do_sort();
+                self.write_tmp()?;
+            }
+            if self.data_used >= self.data.capacity() {
+                if self.data_used >= MAX_LINE {
+                    return err!("Line too long to be sorted");
+                }
+                self.data
+                    .reserve_exact(self.data_used.max(1024).min(MAX_LINE - self.data_used));
+            }
+        }
+        Ok(())
+    }
     /// Add another file's worth of data to the stream
     /// possibly writing temporary files
     pub fn add(&mut self, mut r: impl Read) -> Result<()> {
         loop {
             debug_assert!(self.check());
             const SIZE: usize = 16 * 1024;
+            self.make_room()?;
             let sz = self.prepare(SIZE);
             debug_assert!(sz > 0);
             let nbytes = match r.read(&mut self.data[self.data_used..self.data_used + sz]) {
@@ -437,12 +459,6 @@ impl Sorter {
                 return Ok(());
             }
             self.data_used += nbytes;
-            // calc new stuff
-            if self.data_used >= self.data.capacity() {
-                self.calc();
-                self.do_sort();
-                self.write_tmp()?;
-            }
         }
     }
     /// Populate 'ptrs' from 'data'
@@ -474,7 +490,7 @@ impl Sorter {
         new_w.flush()?;
         self.tmp_files.push(tmp_name.to_string());
         self.ptrs.clear();
-        let nsize = self.data.len() - self.data_calc;
+        let nsize = self.data_used - self.data_calc;
         for i in 0..nsize {
             self.data[i] = self.data[self.data_calc + i];
         }
-- 
2.43.0


From 432de8feb65cfbb86bac215ae46df92fc66be73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:52 +0000
Subject: [PATCH 11/79] fix: sort no longer mistakes a line of a temporary run
 for a CDX or gzip header

Each spilled run was read back through the format detection for user files, so
a data line starting with ' CDX' that sorted first was dropped as a header.
---
 src/sort.rs | 18 ++++++++++++++----
 src/util.rs | 20 +++++++++++++++++++-
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 43540cd..5707988 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -40,6 +40,16 @@ pub struct SortConfig {
     pub alt_merge: bool,
 }
 
+/// Open a file to be merged.
+/// Files in tmp were written by us, without header, so never interpret their first bytes.
+fn merge_open(name: &str, tmp: &TempDir) -> Result<Reader> {
+    if std::path::Path::new(name).starts_with(tmp.path()) {
+        Reader::new_open_raw(name)
+    } else {
+        Reader::new_open2(name)
+    }
+}
+
 impl SortConfig {
     /// merge all the files into w, using tmp
     pub fn merge_t(
@@ -65,7 +75,7 @@ impl SortConfig {
         cmp: &mut LineCompList,
         mut w: impl Write,
         unique: bool,
-        _tmp: &TempDir,
+        tmp: &TempDir,
     ) -> Result<()> {
         if in_files.is_empty() {
             return Ok(());
@@ -82,7 +92,7 @@ impl SortConfig {
         {
             let mut mcm = mc.borrow_mut();
             for x in in_files {
-                mcm.open.push(Reader::new_open2(x)?);
+                mcm.open.push(merge_open(x, tmp)?);
             }
             if !mcm.cmp.need_split() {
                 for x in &mut mcm.open {
@@ -143,7 +153,7 @@ impl SortConfig {
         cmp: &mut LineCompList,
         mut w: impl Write,
         unique: bool,
-        _tmp: &TempDir,
+        tmp: &TempDir,
     ) -> Result<()> {
         if in_files.is_empty() {
             return Ok(());
@@ -154,7 +164,7 @@ impl SortConfig {
         }
         let mut open_files: Vec<Reader> = Vec::with_capacity(in_files.len());
         for x in in_files {
-            open_files.push(Reader::new_open2(x)?);
+            open_files.push(merge_open(x, tmp)?);
         }
         if !cmp.need_split() {
             for x in &mut open_files {
diff --git a/src/util.rs b/src/util.rs
index fdcf64f..932df9c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1572,10 +1572,28 @@ impl Reader {
     }
     /// make a new Reader
     pub fn new_open_with(name: &str, lookback: usize, text_in: &TextFileMode) -> Result<Self> {
+        Self::new_infile(get_reader(name)?, name, lookback, text_in)
+    }
+    /// make a new Reader for a file of plain lines. There is no header nor compression,
+    /// no matter what the first few bytes look like.
+    pub(crate) fn new_open_raw(name: &str) -> Result<Self> {
+        let text_in = TextFileMode {
+            head_mode: HeadMode::No,
+            ..TextFileMode::default()
+        };
+        let file = io::BufReader::new(Box::new(fs::File::open(name)?) as Box<dyn Read>);
+        Self::new_infile(Infile::new(file, name), name, 1, &text_in)
+    }
+    fn new_infile(
+        file: Infile,
+        name: &str,
+        lookback: usize,
+        text_in: &TextFileMode,
+    ) -> Result<Self> {
         let mut lines: Vec<TextLine> = Vec::new();
         lines.resize(lookback + 1, TextLine::new());
         let mut tmp = Self {
-            file: get_reader(name)?,
+            file,
             lines,
             cont: InfileContext::new(text_in),
             do_split: true,
-- 
2.43.0


From 3a7028251ba12232ce6fd18060a9c4879b1fd322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:55 +0000
Subject: [PATCH 12/79] fix: merge equal lines in the order of their files

The heap picked an arbitrary one, so that a sort that spilled to temporary
files ordered equal lines, and chose the one to keep with --unique, differently
from one that fit in memory.
---
 src/sort.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sort.rs b/src/sort.rs
index 5707988..342c46c 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -24,6 +24,7 @@ impl MergeContext<'_> {
     fn compare(&mut self, a: usize, b: usize) -> Ordering {
         self.cmp
             .comp_cols(self.open[a].curr_line(), self.open[b].curr_line())
+            .then(a.cmp(&b))
             .reverse()
     }
     fn equal(&mut self, a: &TextLine, b: usize) -> bool {
-- 
2.43.0


From 6b102635cc87605857ddb0054e8d0a5f50f1a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:57 +0000
Subject: [PATCH 13/79] fix: merge no longer loses the header, or a line with
 an empty key, to an empty file

The header was written only if the first file had one, and an empty file
contributed an empty line, which with --unique replaced a real one.
---
 src/sort.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 342c46c..a01306f 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -101,12 +101,12 @@ impl SortConfig {
                 }
             }
             // FIXME -- Check Header
-            if mcm.open[0].has_header() {
-                w.write_all(mcm.open[0].header().line.as_bytes())?;
+            if let Some(x) = mcm.open.iter().find(|x| x.has_header()) {
+                w.write_all(x.header().line.as_bytes())?;
             }
         }
         for i in 0..in_files.len() {
-            if !mc.borrow().open[i].is_done() {
+            if !mc.borrow().open[i].is_done() && !mc.borrow().open[i].is_empty() {
                 heap.push(i);
             }
         }
@@ -173,8 +173,8 @@ impl SortConfig {
             }
         }
         // FIXME -- Check Header
-        if open_files[0].has_header() {
-            w.write_all(open_files[0].header().line.as_bytes())?;
+        if let Some(x) = open_files.iter().find(|x| x.has_header()) {
+            w.write_all(x.header().line.as_bytes())?;
         }
 
         let nums: Vec<usize> = (0..open_files.len()).collect();
@@ -627,7 +627,7 @@ impl MergeTreeItem {
     fn next(&mut self, cmp: &mut LineCompList, files: &mut [Reader]) -> Result<Option<usize>> {
         match self {
             Self::Leaf(r) => {
-                if files[r.file_num].is_done() {
+                if files[r.file_num].is_done() || files[r.file_num].is_empty() {
                     Ok(None)
                 } else {
                     if r.first {
-- 
2.43.0


From 78d1bd60c338e33d00e2a0c4248036c6dd8d1ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:45 +0000
Subject: [PATCH 14/79] fix: merge resolves named key columns

Without the lookup every named key meant the first column.
---
 src/sort.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/sort.rs b/src/sort.rs
index a01306f..fac91e4 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -44,13 +44,32 @@ pub struct SortConfig {
 /// Open a file to be merged.
 /// Files in tmp were written by us, without header, so never interpret their first bytes.
 fn merge_open(name: &str, tmp: &TempDir) -> Result<Reader> {
-    if std::path::Path::new(name).starts_with(tmp.path()) {
+    if is_ours(name, tmp) {
         Reader::new_open_raw(name)
     } else {
         Reader::new_open2(name)
     }
 }
 
+fn is_ours(name: &str, tmp: &TempDir) -> bool {
+    std::path::Path::new(name).starts_with(tmp.path())
+}
+
+/// Resolve named columns. Already done if the files are our own.
+fn merge_lookup(
+    in_files: &[String],
+    open: &[Reader],
+    cmp: &mut LineCompList,
+    tmp: &TempDir,
+) -> Result<()> {
+    for (name, file) in in_files.iter().zip(open) {
+        if !file.is_empty() && !is_ours(name, tmp) {
+            return cmp.lookup(&file.names());
+        }
+    }
+    Ok(())
+}
+
 impl SortConfig {
     /// merge all the files into w, using tmp
     pub fn merge_t(
@@ -95,6 +114,8 @@ impl SortConfig {
             for x in in_files {
                 mcm.open.push(merge_open(x, tmp)?);
             }
+            let MergeContext { open, cmp } = &mut *mcm;
+            merge_lookup(in_files, open, cmp, tmp)?;
             if !mcm.cmp.need_split() {
                 for x in &mut mcm.open {
                     x.do_split(false);
@@ -167,6 +188,7 @@ impl SortConfig {
         for x in in_files {
             open_files.push(merge_open(x, tmp)?);
         }
+        merge_lookup(in_files, &open_files, cmp, tmp)?;
         if !cmp.need_split() {
             for x in &mut open_files {
                 x.do_split(false);
-- 
2.43.0


From 126c4412c6f58181e0ec2131ec3e6a9399dafca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:08 +0000
Subject: [PATCH 15/79] fix: the cached comparison of sort agrees with the
 comparison of the lines

Reverse was applied twice when the cache did not decide; whole line keys cached
the start of the buffer instead of the line, so that all lines were equal by
length or as float; and keys differing only in trailing zero bytes were equal.
---
 src/comp.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index ebe1cfa..6993289 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -247,7 +247,8 @@ impl LineComp {
         } else if left.complete() && right.complete() {
             Ordering::Equal
         } else {
-            self.comp_lines(left.get(base), right.get(base))
+            self.comp
+                .comp_lines(left.get(base), right.get(base), self.delim, 0, 0)
         };
         self.reverse(x)
     }
@@ -444,7 +445,8 @@ impl LineCompare for LineCompWhole {
     }
 
     fn fill_cache_line(&mut self, item: &mut Item, value: &[u8], _delim: u8) {
-        self.comp.fill_cache(item, value);
+        let line = item.get(value);
+        self.comp.fill_cache(item, line);
     }
 
     fn set(&mut self, value: &[u8]) {
@@ -607,6 +609,12 @@ impl LineCompare for LineCompCol {
 }
 */
 
+/// does `make_array` fully represent this slice?
+/// A trailing zero is indistinguishable from padding
+fn fits_cache(val: &[u8]) -> bool {
+    val.len() <= 8 && val.last() != Some(&0)
+}
+
 /// make fixed length array from slice
 fn make_array(val: &[u8]) -> [u8; 8] {
     let mut res = [0; 8];
@@ -1587,7 +1595,7 @@ impl Compare for ComparePlain {
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
         item.cache = u64::from_be_bytes(make_array(value));
-        item.assign_complete(value.len() <= 8);
+        item.assign_complete(fits_cache(value));
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
@@ -1613,7 +1621,7 @@ impl Compare for CompareLower {
             x.make_ascii_lowercase();
         }
         item.cache = u64::from_be_bytes(aa);
-        item.assign_complete(value.len() <= 8);
+        item.assign_complete(fits_cache(value));
     }
     fn set(&mut self, value: &[u8]) {
         value.assign_lower(&mut self.value);
-- 
2.43.0


From 6d029f5ec01bb72d673826c478f3a8bf7f454a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:34 +0000
Subject: [PATCH 16/79] fix: numeric comparison is a consistent order, cached
 or not

5 was equal to both 5.2 and 5.3, and sort cached a float, which ranks 1,000 and
1e3 differently; so the result depended on which lines happened to be compared.
---
 src/comp.rs | 113 +++++++++++++++++++++++++++-------------------------
 1 file changed, 59 insertions(+), 54 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 6993289..21157e1 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -655,80 +655,54 @@ fn skip_comma(mut a: &[u8]) -> &[u8] {
     a
 }
 
-fn frac_cmp(mut a: &[u8], mut b: &[u8]) -> Ordering {
-    debug_assert!(!a.is_empty());
-    debug_assert!(!b.is_empty());
-    debug_assert!(a[0] == b'.');
-    debug_assert!(b[0] == b'.');
-    a = &a[1..];
-    b = &b[1..];
-    while !a.is_empty() && !b.is_empty() && (a[0] == b[0]) && a[0].is_ascii_digit() {
-        a = &a[1..];
-        b = &b[1..];
+/// digits after the decimal point, without any meaningless zeros
+fn frac_digits(a: &[u8]) -> &[u8] {
+    if a.first() != Some(&b'.') {
+        return &a[..0];
     }
-    if a.is_empty() {
-        if b.is_empty() || !b[0].is_ascii_digit() {
-            Ordering::Equal
-        } else {
-            Ordering::Less
-        }
-    } else if b.is_empty() {
-        if a[0].is_ascii_digit() {
-            Ordering::Greater
-        } else {
-            Ordering::Equal
-        }
-    } else if a[0].is_ascii_digit() {
-        if b[0].is_ascii_digit() {
-            a[0].cmp(&b[0])
-        } else {
-            Ordering::Greater
-        }
-    } else if b[0].is_ascii_digit() {
-        Ordering::Less
-    } else {
-        Ordering::Equal
+    let mut len = 1;
+    while len < a.len() && a[len].is_ascii_digit() {
+        len += 1;
     }
+    while len > 1 && a[len - 1] == b'0' {
+        len -= 1;
+    }
+    &a[1..len]
+}
+
+fn is_digit(a: &[u8]) -> bool {
+    !a.is_empty() && a[0].is_ascii_digit()
 }
 
 fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
     a = skip_comma_zero(a);
     b = skip_comma_zero(b);
-    while !a.is_empty() && !b.is_empty() && (a[0] == b[0]) && a[0].is_ascii_digit() {
+    while is_digit(a) && is_digit(b) && (a[0] == b[0]) {
         a = &a[1..];
         b = &b[1..];
         a = skip_comma(a);
         b = skip_comma(b);
     }
-    if a.is_empty() && b.is_empty() {
-        return Ordering::Equal;
-    }
-    if a.is_empty() {
-        if b[0].is_ascii_digit() {
-            return Ordering::Less;
-        }
-        return Ordering::Equal;
+    if !is_digit(a) && !is_digit(b) {
+        return frac_digits(a).cmp(frac_digits(b));
     }
-    if b.is_empty() {
-        if a[0].is_ascii_digit() {
-            return Ordering::Greater;
-        }
-        return Ordering::Equal;
+    if !is_digit(a) {
+        return Ordering::Less;
     }
-    if a[0] == b'.' && b[0] == b'.' {
-        return frac_cmp(a, b);
+    if !is_digit(b) {
+        return Ordering::Greater;
     }
     let tmp = a[0].cmp(&b[0]);
 
     let mut log_a = 0;
-    while !a.is_empty() && a[0].is_ascii_digit() {
+    while is_digit(a) {
         log_a += 1;
         a = &a[1..];
         a = skip_comma(a);
     }
 
     let mut log_b = 0;
-    while !b.is_empty() && b[0].is_ascii_digit() {
+    while is_digit(b) {
         log_b += 1;
         b = &b[1..];
         b = skip_comma(b);
@@ -737,12 +711,42 @@ fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
     if log_a != log_b {
         return log_a.cmp(&log_b);
     }
-    if log_a == 0 {
-        return Ordering::Equal;
-    }
     tmp
 }
 
+/// a number ordered in the same way as `num_cmp_signed`
+/// number of digits before the decimal point, and then the first few of those digits
+fn num_cache(mut a: &[u8]) -> u64 {
+    a = a.trimw_start();
+    let minus = a.first() == Some(&b'-');
+    if minus {
+        a = &a[1..];
+    }
+    a = skip_comma_zero(a);
+    let mut len = 0u64;
+    let mut digits = 0u64;
+    while is_digit(a) {
+        if len < 15 {
+            digits = digits * 10 + u64::from(a[0] - b'0');
+        }
+        len += 1;
+        a = skip_comma(&a[1..]);
+    }
+    for _ in len..15 {
+        digits *= 10;
+    }
+    let val = if len < 0x1000 {
+        (len << 50) | digits
+    } else {
+        0x1000 << 50
+    };
+    if minus {
+        !(1 << 63 | val)
+    } else {
+        1 << 63 | val
+    }
+}
+
 fn num_cmp_signed(mut a: &[u8], mut b: &[u8]) -> Ordering {
     a = a.trimw_start();
     b = b.trimw_start();
@@ -1664,7 +1668,8 @@ impl Compare for CompareNumeric {
         num_cmp_signed(left, right) == Ordering::Equal
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
-        item.cache = ulp_to_ulong(value.to_f64_lossy());
+        item.cache = num_cache(value);
+        item.clear_complete();
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
-- 
2.43.0


From cea7833abbd45e720b4887460f8543bb41a0e2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:50 +0000
Subject: [PATCH 17/79] fix: float comparison orders NaN and negative zero the
 same way, cached or not

---
 src/comp.rs |  6 +++---
 src/num.rs  | 10 ++++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 21157e1..5fadb7d 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1707,7 +1707,7 @@ impl Compare for Comparef64 {
         fcmp(left.to_f64_lossy(), right.to_f64_lossy())
     }
     fn equal(&self, left: &[u8], right: &[u8]) -> bool {
-        left.to_f64_lossy() == right.to_f64_lossy()
+        fcmp(left.to_f64_lossy(), right.to_f64_lossy()) == Ordering::Equal
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
         item.cache = ulp_to_ulong(value.to_f64_lossy());
@@ -1882,7 +1882,7 @@ impl LineCompare for LineCompExpr {
     ) -> bool {
         let left_val = self.exprs[left_file].eval(left);
         let right_val = self.exprs[right_file].eval(right);
-        left_val == right_val
+        fcmp(left_val, right_val) == Ordering::Equal
     }
     fn comp_lines(
         &mut self,
@@ -1906,7 +1906,7 @@ impl LineCompare for LineCompExpr {
     ) -> bool {
         let left_val = self.exprs[left_file].eval_line(left, delim);
         let right_val = self.exprs[right_file].eval_line(right, delim);
-        left_val == right_val
+        fcmp(left_val, right_val) == Ordering::Equal
     }
     fn lookup(&mut self, fieldnames: &[&str], file_num: usize) -> Result<()> {
         while self.exprs.len() < (file_num + 1) {
diff --git a/src/num.rs b/src/num.rs
index 24ad3e4..7d0947d 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -110,12 +110,18 @@ pub fn fcmp(x: f64, y: f64) -> Ordering {
     if x > y {
         return Ordering::Greater;
     }
-    Ordering::Less
+    if x < y {
+        return Ordering::Less;
+    }
+    // NaN is equal to itself and bigger than everything else
+    x.is_nan().cmp(&y.is_nan())
 }
 
-/// convert an f64 to a similarly ordered u64
+/// convert an f64 to a u64, ordered as [fcmp]
 #[must_use]
 pub fn ulp_to_ulong(d: f64) -> u64 {
+    // only one NaN, only one zero
+    let d = if d.is_nan() { f64::NAN } else { d + 0.0 };
     let x = u64::from_ne_bytes(d.to_ne_bytes());
     if (x & 0x8000_0000_0000_0000_u64) != 0 {
         x ^ 0xffff_ffff_ffff_ffff_u64
-- 
2.43.0


From ba7f4f5f57d01d432a3517ede6ffa8ef9c5f3c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:46 +0000
Subject: [PATCH 18/79] fix: a random sort order no longer panics

Comparing at random is not an order, and the standard library's sort detects
that and panics; give each line a random key instead.
---
 src/comp.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 5fadb7d..24cf1b0 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1483,11 +1483,24 @@ impl LineCompList {
     }
 }
 
-#[derive(Default, Debug)]
-struct CompareRandom {}
+#[derive(Debug)]
+struct CompareRandom {
+    seed: u64,
+}
 impl CompareRandom {
     fn new() -> Self {
-        Self::default()
+        Self {
+            seed: fastrand::u64(..),
+        }
+    }
+    // a given pair of values must always compare the same way, or sorting might fail
+    fn hash(&self, value: &[u8]) -> u64 {
+        let mut h = self.seed;
+        for x in value {
+            h = (h ^ u64::from(*x)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
+            h ^= h >> 29;
+        }
+        h
     }
     fn ord(&self) -> Ordering {
         if fastrand::bool() {
@@ -1498,13 +1511,16 @@ impl CompareRandom {
     }
 }
 impl Compare for CompareRandom {
-    fn comp(&self, _left: &[u8], _right: &[u8]) -> Ordering {
-        self.ord()
+    fn comp(&self, left: &[u8], right: &[u8]) -> Ordering {
+        self.hash(left).cmp(&self.hash(right))
     }
     fn equal(&self, _left: &[u8], _right: &[u8]) -> bool {
         fastrand::bool()
     }
-    fn fill_cache(&self, _item: &mut Item, _value: &[u8]) {}
+    fn fill_cache(&self, item: &mut Item, _value: &[u8]) {
+        item.cache = fastrand::u64(..);
+        item.set_complete();
+    }
     fn set(&mut self, _value: &[u8]) {}
     fn comp_self(&self, _right: &[u8]) -> Ordering {
         self.ord()
-- 
2.43.0


From b394cef6c375512e7f36bb967a60c2aebf6b2246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:06 +0000
Subject: [PATCH 19/79] fix: line numbers start at one, so sample selects the
 lines asked for

---
 src/bin/cdx/verify_main.rs |  2 +-
 src/util.rs                | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index 878a985..bf61abc 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -100,7 +100,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.curr().len() != num_cols {
                 eprintln!(
                     "Expected {num_cols} columns, but line {} of {} had {}",
-                    f.line_number() + 1,
+                    f.line_number(),
                     x,
                     f.curr().len()
                 );
diff --git a/src/util.rs b/src/util.rs
index 932df9c..17f87e3 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1601,14 +1601,18 @@ impl Reader {
             loc: FileLocData::default(),
         };
         tmp.cont.read_header(&mut *tmp.file, &mut tmp.lines[0])?;
-        tmp.loc.name = name.to_string();
-        tmp.loc.line = 1;
-        tmp.loc.bytes = if tmp.has_header() {
-            tmp.header().line.len()
+        tmp.start_loc(name);
+        Ok(tmp)
+    }
+    /// set location to first line of file
+    fn start_loc(&mut self, name: &str) {
+        self.loc.name = name.to_string();
+        self.loc.line = 1;
+        self.loc.bytes = if self.has_header() {
+            self.header().line.len()
         } else {
             0
         };
-        Ok(tmp)
     }
     /// get current line contents, without the trailing newline
     #[must_use]
@@ -1640,7 +1644,9 @@ impl Reader {
     /// open file for reading
     pub fn open(&mut self, name: &str) -> Result<()> {
         self.file = get_reader(name)?;
-        self.cont.read_header(&mut *self.file, &mut self.lines[0])
+        self.cont.read_header(&mut *self.file, &mut self.lines[0])?;
+        self.start_loc(name);
+        Ok(())
     }
     /// The full text of the header, without the trailing newline
     #[must_use]
-- 
2.43.0


From e1438c9eb7df1ab122953f529d6702c3600f37e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:17 +0000
Subject: [PATCH 20/79] fix: an empty expression is reported as invalid instead
 of ending calc with a panic

---
 src/shunting_yard.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shunting_yard.rs b/src/shunting_yard.rs
index d4899ee..ccd5c8d 100644
--- a/src/shunting_yard.rs
+++ b/src/shunting_yard.rs
@@ -138,6 +138,9 @@ pub(crate) fn to_rpn(input: &[Token]) -> Result<Vec<Token>> {
         }
     }
 
+    if n_operands < 1 {
+        return err!("Not Enough Operands");
+    }
     if n_operands > 1 {
         return err!("Too Many Operands");
     }
-- 
2.43.0


From b75773f79d9084850379026241e8f5c4488f8661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:29 +0000
Subject: [PATCH 21/79] fix: sample -s 2 no longer panics on more than two
 lines

---
 src/sampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampler.rs b/src/sampler.rs
index f1e4b2d..1482c1f 100644
--- a/src/sampler.rs
+++ b/src/sampler.rs
@@ -22,7 +22,7 @@ impl Smooth {
     #[must_use]
     pub fn new(sz: usize) -> Self {
         let small = sz.max(2);
-        let large = small * 2 - 2;
+        let large = (small * 2 - 2).max(small + 1); // must exceed small, or collapse makes no room
         let mut data = Vec::with_capacity(large);
         for _ in 0..large {
             data.push(Vec::new());
-- 
2.43.0


From 6fe1587142af0711ec9e26cd8c7a6eb58b25e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:01 +0000
Subject: [PATCH 22/79] fix: join no longer invents a line of column names in
 the unmatched output of a file without a header

---
 src/join.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/join.rs b/src/join.rs
index b0934af..ea0e086 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -190,7 +190,9 @@ impl Joiner {
             let num = x.file_num - 1;
             if self.no_match[num].is_none() {
                 let mut w = get_writer(&x.file_name)?;
-                self.r[num].write_header(&mut *w)?;
+                if self.r[num].has_header() {
+                    self.r[num].write_header(&mut *w)?;
+                }
                 self.no_match[num] = Some(w);
             } else {
                 return err!("Multiple uses of --also for file {}", x.file_num);
-- 
2.43.0


From e4eab31e011fad7bf6a5eb5e997ea3d2ac11332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:16 +0000
Subject: [PATCH 23/79] fix: what one test leaves in the temporary directory no
 longer affects the tests after it

---
 src/tooltest.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/tooltest.rs b/src/tooltest.rs
index 61c28b4..0f57e62 100644
--- a/src/tooltest.rs
+++ b/src/tooltest.rs
@@ -88,6 +88,20 @@ pub fn read_dir(dir: &Path) -> Result<Vec<String>> {
     Ok(dirs)
 }
 
+/// remove everything from a directory, creating the directory if necessary
+fn clean_dir(dir: &Path) -> Result<()> {
+    fs::create_dir_all(dir)?;
+    for entry in fs::read_dir(dir)? {
+        let entry = entry?;
+        if entry.file_type()?.is_dir() {
+            fs::remove_dir_all(entry.path())?;
+        } else {
+            fs::remove_file(entry.path())?;
+        }
+    }
+    Ok(())
+}
+
 /// if line doesn't start with tag, return false
 /// read following lines into buff, until another # line is seen
 /// set `need_read` to false if line ends up with unexamined data
@@ -262,6 +276,10 @@ impl Test {
         if !tmp.ends_with('/') {
             tmp.push('/');
         }
+        if !keep_files {
+            // whatever an earlier test left behind must not affect this one
+            clean_dir(Path::new(&tmp))?;
+        }
         for x in &self.in_files {
             let mut fname = tmp.clone();
             fname.push_str(&x.name);
-- 
2.43.0


From 41d925097b1b22866263b891f6065c54591ae629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:34 +0000
Subject: [PATCH 24/79] fix: tooltest reports a test it cannot give its input
 instead of panicking

---
 src/tooltest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tooltest.rs b/src/tooltest.rs
index 0f57e62..c8ca865 100644
--- a/src/tooltest.rs
+++ b/src/tooltest.rs
@@ -314,7 +314,7 @@ impl Test {
             tmp_cmd.arg(OsStr::from_bytes(x));
         }
         let res = tmp_cmd
-            .stdin(std::fs::File::open(&tmp_stdin).unwrap())
+            .stdin(std::fs::File::open(&tmp_stdin)?)
             .output();
         let output = match res {
             Err(x) => {
-- 
2.43.0


From 7ba4367c455b7531c78e404db39c526a5956b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:14 +0000
Subject: [PATCH 25/79] fix: verify no longer passes a file whose last line is
 the one that fails

---
 src/bin/cdx/verify_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index bf61abc..d3ccaac 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -119,6 +119,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 {
                     fails += 1;
                 }
+                if did_fail {
+                    fails += 1;
+                }
                 break;
             }
             if do_sort {
-- 
2.43.0


From d68ea726cd69ca85986b85b7a03284c2708c1200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:14 +0000
Subject: [PATCH 26/79] fix: verify --report no longer panics

---
 src/bin/cdx/verify_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index d3ccaac..f25643b 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -48,7 +48,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             comp.add(&x.value)?;
         } else if x.name == "or" {
             list.multi = Combiner::Or;
-        } else if x.name == "fail" {
+        } else if x.name == "report" {
             max_fails = x.value.to_usize_whole(x.value.as_bytes(), "max fails")?;
         } else if x.name == "sort" {
             do_sort = true;
-- 
2.43.0


From 1e82e59e40cada93c1a03ae8b83d01775542afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:14 +0000
Subject: [PATCH 27/79] fix: verify checks both ends of a two-sided condition
 on the first or last line

---
 src/util.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 17f87e3..7c390ea 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2340,7 +2340,7 @@ impl CheckLine {
         self.val2 = if r.val2.is_none() {
             None
         } else {
-            Some(r.op2.unwrap().to_owned())
+            Some(r.val2.unwrap().to_owned())
         };
         Ok(())
     }
@@ -2356,7 +2356,16 @@ impl CheckLine {
         line_num: usize,
     ) -> Result<bool> {
         comp.set(self.val.as_bytes(), b',')?;
-        Ok(self.op.line_ok_verbose(line, comp, line_num))
+        if !self.op.line_ok_verbose(line, comp, line_num) {
+            return Ok(false);
+        }
+        match self.op2 {
+            None => Ok(true),
+            Some(o) => {
+                comp.set(self.val2.as_ref().unwrap().as_bytes(), b',')?;
+                Ok(o.line_ok_verbose(line, comp, line_num))
+            }
+        }
     }
     /// compare line OP text, return true if match
     pub fn line_ok(&self, line: &TextLine, comp: &mut LineCompList) -> Result<bool> {
-- 
2.43.0


From f6ab35c11f7b9cd962cc70206dd6ce3f435bce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:14 +0000
Subject: [PATCH 28/79] fix: verify understands <= and >= conditions on the
 first or last line

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 7c390ea..82dc42e 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2219,8 +2219,8 @@ impl<'a> RangeSpec<'a> {
     fn new(spec: &'a str) -> Result<Self> {
         lazy_static! {
             static ref RE1: Regex =
-                Regex::new("^(<|>|<=|>=|==|!=)([^<>!=]+)(<|>|<=|>=|==|!=)(.+)$").unwrap();
-            static ref RE2: Regex = Regex::new("^(<|>|<=|>=|==|!=)(.+)$").unwrap();
+                Regex::new("^(<=|>=|<|>|==|!=)([^<>!=]+)(<=|>=|<|>|==|!=)(.+)$").unwrap();
+            static ref RE2: Regex = Regex::new("^(<=|>=|<|>|==|!=)(.+)$").unwrap();
             static ref RE3: Regex =
                 Regex::new("^(LT|GT|LE|GE|EQ|NE),([^,]+),(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
             static ref RE4: Regex = Regex::new("^(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
-- 
2.43.0


From 5d593aacb891554c4fe642a9f33adc1890541978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:14 +0000
Subject: [PATCH 29/79] fix: sort --check resolves named key columns and
 rejects unknown ones

---
 src/bin/cdx/sort_main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/cdx/sort_main.rs b/src/bin/cdx/sort_main.rs
index 0ca7adb..56439da 100644
--- a/src/bin/cdx/sort_main.rs
+++ b/src/bin/cdx/sort_main.rs
@@ -58,6 +58,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.is_done() {
                 continue;
             }
+            comp.lookup(&f.names())?;
             loop {
                 if f.getline()? {
                     break;
-- 
2.43.0


From 8bbb24d0a8ff32f73036d099bb39d4220f6f614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:02 +0000
Subject: [PATCH 30/79] fix: binsearch no longer hangs on a blank line or
 panics on context before the end of an unterminated file

---
 src/binsearch.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index e34e486..673bacb 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -88,12 +88,9 @@ pub const fn find_end(data: &[u8], mut start: usize) -> usize {
 /// that is, starting in the middle of a line, find the start of it
 #[must_use]
 pub const fn find_start(data: &[u8], mut start: usize) -> usize {
-    while (start > 0) && (data[start] != b'\n') {
+    while (start > 0) && (data[start - 1] != b'\n') {
         start -= 1;
     }
-    if data[start] == b'\n' {
-        start += 1;
-    }
     start
 }
 
@@ -101,13 +98,10 @@ pub const fn find_start(data: &[u8], mut start: usize) -> usize {
 /// return the beginning of the previous line
 #[must_use]
 pub const fn find_prev(data: &[u8], start: usize) -> usize {
-    if start <= 1 {
+    if start == 0 {
         return 0;
     }
-    if data[start - 1] != b'\n' {
-        return find_start(data, start);
-    }
-    find_start(data, start - 2)
+    find_start(data, start - 1)
 }
 
 /// return first line that matches (with newline) or empty slice if none
-- 
2.43.0


From 7c0176fa6cdb7096bed2201ddafbfbcf6d011b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:02 +0000
Subject: [PATCH 31/79] fix: binsearch no longer searches the header as if it
 were data, or prints it twice as context

---
 src/bin/cdx/binsearch_main.rs | 12 ++++++------
 src/binsearch.rs              |  5 +++++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index e6475d4..e2648dc 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -156,26 +156,26 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(&not_header)?;
         }
         comp.lookup(&m.names())?;
-        let (mut start, mut stop) = equal_range_n(m.get(), &mut comp);
+        let (mut start, mut stop) = equal_range_n(m.data(), &mut comp);
         let (before, after) = context.get(start == stop);
         for _x in 0..before {
             if start == 0 {
                 break;
             }
-            start = find_prev(m.get(), start);
+            start = find_prev(m.data(), start);
         }
         for _x in 0..after {
-            stop = find_end(m.get(), stop);
+            stop = find_end(m.data(), stop);
         }
         if filename.is_none() {
-            write_all_nl(&mut w.0, &m.get()[start..stop])?;
+            write_all_nl(&mut w.0, &m.data()[start..stop])?;
         } else {
             let file: &FileNameColumn = filename.as_ref().unwrap();
             while start < stop {
-                let end = find_end(m.get(), start);
+                let end = find_end(m.data(), start);
                 w.write_all(f.tail_path_u8(file.tail, b'/').as_bytes())?;
                 w.write_all(&[b'\t'])?;
-                write_all_nl(&mut w.0, &m.get()[start..end])?;
+                write_all_nl(&mut w.0, &m.data()[start..end])?;
                 start = end;
             }
         }
diff --git a/src/binsearch.rs b/src/binsearch.rs
index 673bacb..54d1e19 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -49,6 +49,11 @@ impl MemMap {
     pub fn get(&self) -> &[u8] {
         &self.map[..]
     }
+    /// get the lines to be searched, that is everything after the CDX header
+    #[must_use]
+    pub fn data(&self) -> &[u8] {
+        &self.map[self.header_len..]
+    }
     /// get column delimiter
     #[must_use]
     pub const fn get_delim(&self) -> u8 {
-- 
2.43.0


From c7377ea7f05b0c5c39c1b244a2135b888ca72684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:02 +0000
Subject: [PATCH 32/79] fix: binsearch --sub-delim no longer panics

---
 src/bin/cdx/binsearch_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index e2648dc..d2d6b46 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -115,7 +115,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             filename = Some(f);
         } else if x.name == "context" {
             context.set(&x.value)?;
-        } else if x.name == "subdelim" {
+        } else if x.name == "sub-delim" {
             if x.value.len() != 1 {
                 return err!("--sub-delim value must be a single character");
             }
-- 
2.43.0


From 1ba002755649a43de55337c345e2809ba72d5411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:36 +0000
Subject: [PATCH 33/79] fix: a whole line compared with a given value no longer
 includes its newline

---
 src/comp.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 24cf1b0..3071086 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -454,22 +454,27 @@ impl LineCompare for LineCompWhole {
     }
 
     fn comp_self_cols(&mut self, right: &TextLine) -> Ordering {
-        self.comp.comp_self(right.line())
+        self.comp.comp_self(no_newline(right.line()))
     }
 
     fn equal_self_cols(&mut self, right: &TextLine) -> bool {
-        self.comp.equal_self(right.line())
+        self.comp.equal_self(no_newline(right.line()))
     }
 
     fn comp_self_line(&mut self, right: &[u8], _delim: u8) -> Ordering {
-        self.comp.comp_self(right)
+        self.comp.comp_self(no_newline(right))
     }
 
     fn equal_self_line(&mut self, right: &[u8], _delim: u8) -> bool {
-        self.comp.equal_self(right)
+        self.comp.equal_self(no_newline(right))
     }
 }
 
+/// the line without its newline, if any
+fn no_newline(line: &[u8]) -> &[u8] {
+    line.strip_suffix(b"\n").unwrap_or(line)
+}
+
 /// compare the whole line with the [Compare]
 struct LineCompCol {
     cols: Vec<NamedCol>,
-- 
2.43.0


From 6abba18035087871cc635da7ba187315a8602c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:29 +0000
Subject: [PATCH 34/79] fix: uniq without a key compares whole lines instead of
 dropping all lines but the first

---
 src/bin/cdx/uniq_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 14293c2..7c9b389 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -188,6 +188,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     }
 
     assert_eq!(files.len(), 1);
+    if comp.is_empty() {
+        comp.add("")?;
+    }
 
     let mut f = Reader::new(&settings.text_in);
     f.open(&files[0])?;
-- 
2.43.0


From 32e7a0cf8993fb6046935b6b401d8fcd8bf0856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:50 +0000
Subject: [PATCH 35/79] fix: uniq splits lines into columns whenever --agg or
 --which needs them, even if the key does not

---
 src/bin/cdx/uniq_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 7c9b389..001c353 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -233,7 +233,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         return Ok(());
     }
 
-    f.do_split(comp.need_split());
+    f.do_split(comp.need_split() || count.comp.need_split() || !agg.is_empty());
     let mut matches = 1;
     if !agg.is_empty() {
         agg.add(f.curr_line());
-- 
2.43.0


From f923a4d8576f62a83c24c7c0bd1ff694565aabc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:01 +0000
Subject: [PATCH 36/79] fix: cut, cgrep, cat and binsearch reject files of
 which only some have a header, instead of writing the header among the data

---
 src/bin/cdx/binsearch_main.rs |  3 ++-
 src/bin/cdx/cat_main.rs       |  2 +-
 src/bin/cdx/cgrep_main.rs     |  2 +-
 src/bin/cdx/cut_main.rs       |  2 +-
 src/util.rs                   | 11 +++++++++++
 5 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index d2d6b46..0d7cdc2 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -152,7 +152,8 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 not_header.extend(m.header());
             }
         }
-        if settings.checker.check(&not_header, f)? {
+        let is_empty = m.data().is_empty() && !m.has_header();
+        if !is_empty && settings.checker.check_header(&not_header, f)? {
             w.write_all(&not_header)?;
         }
         comp.lookup(&m.names())?;
diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 065a5c0..f065940 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -156,7 +156,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.has_header() {
                 not_header = header.get_head(&settings.text_out());
             }
-            if settings.checker.check(not_header.as_bytes(), x)? {
+            if settings.checker.check_header(not_header.as_bytes(), x)? {
                 w.write_all(not_header.as_bytes())?;
             }
             if f.is_done() {
diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index 55048dd..ef62a94 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -52,7 +52,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         if f.has_header() {
             not_header = header.get_head(&settings.text_out());
         }
-        if settings.checker.check(not_header.as_bytes(), x)? {
+        if settings.checker.check_header(not_header.as_bytes(), x)? {
             w.write_all(not_header.as_bytes())?;
         }
         if f.is_done() {
diff --git a/src/bin/cdx/cut_main.rs b/src/bin/cdx/cut_main.rs
index 0d3dd4f..3f28051 100644
--- a/src/bin/cdx/cut_main.rs
+++ b/src/bin/cdx/cut_main.rs
@@ -51,7 +51,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         if f.has_header() {
             not_header = header.get_head(&settings.text_out());
         }
-        if settings.checker.check(not_header.as_bytes(), x)? {
+        if settings.checker.check_header(not_header.as_bytes(), x)? {
             w.write_all(not_header.as_bytes())?;
         }
         if f.is_done() {
diff --git a/src/util.rs b/src/util.rs
index 82dc42e..cbd2a91 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2013,6 +2013,17 @@ impl HeaderChecker {
         Ok(file.has_header() && first)
     }
 
+    /// call for every input file, with the header line to be written for it,
+    /// or with nothing if the file has no header
+    /// return true if the header should be written
+    pub fn check_header(&mut self, header: &[u8], fname: &str) -> Result<bool> {
+        if header.is_empty() {
+            self.check(b"fake", fname)?;
+            return Ok(false);
+        }
+        self.check(header, fname)
+    }
+
     /// call for the first line of every input file
     /// return true if the line should be part of the output
     pub fn check(&mut self, first_line: &[u8], fname: &str) -> Result<bool> {
-- 
2.43.0


From 2ee8b3c00987578c1a61e7175b909c91e5586bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:25 +0000
Subject: [PATCH 37/79] fix: merge rejects files with different headers instead
 of mislabelling columns

---
 src/sort.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index fac91e4..f66dae6 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -55,16 +55,22 @@ fn is_ours(name: &str, tmp: &TempDir) -> bool {
     std::path::Path::new(name).starts_with(tmp.path())
 }
 
-/// Resolve named columns. Already done if the files are our own.
+/// Check headers and resolve named columns. Already done if the files are our own.
 fn merge_lookup(
     in_files: &[String],
     open: &[Reader],
     cmp: &mut LineCompList,
     tmp: &TempDir,
 ) -> Result<()> {
+    let mut checker = HeaderChecker::new();
+    let mut first = true;
     for (name, file) in in_files.iter().zip(open) {
         if !file.is_empty() && !is_ours(name, tmp) {
-            return cmp.lookup(&file.names());
+            checker.check_file(file, name)?;
+            if first {
+                cmp.lookup(&file.names())?;
+                first = false;
+            }
         }
     }
     Ok(())
@@ -121,7 +127,6 @@ impl SortConfig {
                     x.do_split(false);
                 }
             }
-            // FIXME -- Check Header
             if let Some(x) = mcm.open.iter().find(|x| x.has_header()) {
                 w.write_all(x.header().line.as_bytes())?;
             }
@@ -194,7 +199,6 @@ impl SortConfig {
                 x.do_split(false);
             }
         }
-        // FIXME -- Check Header
         if let Some(x) = open_files.iter().find(|x| x.has_header()) {
             w.write_all(x.header().line.as_bytes())?;
         }
-- 
2.43.0


From f4c67705201eb4d79c7504cf4b0d1884678bbc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:35 +0000
Subject: [PATCH 38/79] fix: glob tries every position after a star, and no
 longer panics

---
 src/text.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index cecf811..a8f67a0 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -247,8 +247,10 @@ pub trait Text {
                 buff = buff.skip_first();
             } else {
                 wild = mp;
-                cp = cp.skip_first();
                 buff = cp;
+                if !cp.is_empty() {
+                    cp = cp.skip_first();
+                }
             }
         }
 
-- 
2.43.0


From d19dd2d51aaa2ce9319d44de3d0ba2877ae32d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:35 +0000
Subject: [PATCH 39/79] fix: an empty column specification is reported instead
 of ending in a panic

---
 src/column.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index e2fb6a1..87da29d 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -799,7 +799,7 @@ impl ColumnSet {
             None
         };
         loop {
-            if spc.first() == '(' {
+            if spc.starts_with('(') {
                 let pos = find_close(spc)?;
                 self.add_one(&spc[..pos], negate, trans);
                 spc = &spc[pos..];
@@ -862,6 +862,9 @@ impl ColumnSet {
                 Ok(len - n)
             }
         } else {
+            if colname.is_empty() {
+                return err!("Empty column name");
+            }
             let ch = colname.first();
             if ch.is_ascii_digit() && ch != '0' {
                 let n = colname.to_usize_whole(colname.as_bytes(), "column")?;
@@ -912,6 +915,9 @@ impl ColumnSet {
             None => ("", rng),
             Some(x) => x,
         };
+        if range.is_empty() {
+            return err!("Empty Range {}", rng);
+        }
 
         let ch = range.first();
         if ch == '(' {
-- 
2.43.0


From 3efc4bbf1550af622e7a224e014f7195d224355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:04 +0000
Subject: [PATCH 40/79] fix: numbers and exponents too large to represent no
 longer overflow

---
 src/text.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index a8f67a0..0c5ceab 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -633,14 +633,15 @@ impl Text for [u8] {
             return (0, self);
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10;
-            ret += (curr[0] - b'0') as usize;
+            ret = ret
+                .saturating_mul(10)
+                .saturating_add((curr[0] - b'0') as usize);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
             if let Some(mul) = suffix_valu(curr[0]) {
                 curr = &curr[1..];
-                ret *= mul;
+                ret = ret.saturating_mul(mul);
             }
         }
         (ret, curr)
@@ -661,14 +662,15 @@ impl Text for [u8] {
             return (0, self);
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10;
-            ret += (curr[0] - b'0') as isize;
+            ret = ret
+                .saturating_mul(10)
+                .saturating_add((curr[0] - b'0') as isize);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
             if let Some(mul) = suffix_valu(curr[0]) {
                 curr = &curr[1..];
-                ret *= mul as isize;
+                ret = ret.saturating_mul(mul as isize);
             }
         }
         ret *= neg;
@@ -715,8 +717,9 @@ impl Text for [u8] {
             }
             let mut exponent: i32 = 0;
             while !curr.is_empty() && curr[0].is_ascii_digit() {
-                exponent *= 10;
-                exponent += i32::from(curr[0] - b'0');
+                exponent = exponent
+                    .saturating_mul(10)
+                    .saturating_add(i32::from(curr[0] - b'0'));
                 curr = &curr[1..];
             }
             exponent *= neg_exp;
-- 
2.43.0


From b103f8b3579ed66f59c27863cb813f26fe52a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:04 +0000
Subject: [PATCH 41/79] fix: a header with no columns no longer causes a panic

---
 src/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index 87da29d..5e1d8b5 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -247,7 +247,7 @@ impl ColumnHeader {
     }
 
     fn get_size(&self) -> usize {
-        self.cols.iter().map(String::len).sum::<usize>() + self.cols.len() - 1
+        self.cols.iter().map(String::len).sum::<usize>() + self.cols.len().saturating_sub(1)
     }
     /// append column names, joined
     fn add_head(&self, res: &mut String, text: &TextFileMode) {
-- 
2.43.0


From 7009eeff2a82c7c5878649e1beda6f5573c8d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:04 +0000
Subject: [PATCH 42/79] fix: paste no longer panics on a file that has no data
 lines

---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index cbd2a91..6335b34 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1617,14 +1617,14 @@ impl Reader {
     /// get current line contents, without the trailing newline
     #[must_use]
     pub fn curr_nl(&self) -> &[u8] {
-        let line = self.curr_line();
-        &line.line[0..line.line.len() - 1]
+        let line = &self.curr_line().line;
+        line.strip_suffix(b"\n").unwrap_or(line)
     }
     /// get previous line contents, without the trailing newline
     #[must_use]
     pub fn prev_nl(&self, n: usize) -> &[u8] {
-        let line = self.prev_line(n);
-        &line.line[0..line.line.len() - 1]
+        let line = &self.prev_line(n).line;
+        line.strip_suffix(b"\n").unwrap_or(line)
     }
     /// get delimiter
     #[must_use]
-- 
2.43.0


From 764a0869c78a7fa5121bb09dd675eb58e202ced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:01 +0000
Subject: [PATCH 43/79] fix: sort reports that it cannot make a temporary
 directory instead of panicking

---
 src/sort.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index f66dae6..90ff7b6 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -334,7 +334,7 @@ impl SortConfig {
         unique: bool,
     ) -> Result<()> // maybe return some useful stats?
     {
-        let mut s = Sorter::new(cmp, sort_budget(), unique);
+        let mut s = Sorter::new(cmp, sort_budget(), unique)?;
         for fname in files {
             s.add_file(fname, w)?;
         }
@@ -392,26 +392,25 @@ const MAX_LINE: usize = 0x0000_7fff_ff00;
 
 impl Sorter {
     /// new Sorter
-    #[must_use]
-    pub fn new(cmp: LineCompList, max_alloc: usize, unique: bool) -> Self {
+    pub fn new(cmp: LineCompList, max_alloc: usize, unique: bool) -> Result<Self> {
         let mut data_size = max_alloc / 2;
         if data_size > MAX_DATA {
             data_size = MAX_DATA;
         }
         let ptr_size = max_alloc / 2 / std::mem::size_of::<Item>();
-        Self {
+        Ok(Self {
             config: SortConfig::default(),
             ptrs: Vec::with_capacity(ptr_size),
             data: Vec::with_capacity(data_size),
             cmp,
-            tmp: TempDir::new().unwrap(), // FIXME - new should return Result
+            tmp: TempDir::new()?,
             tmp_files: Vec::new(),
             unique,
             checker: HeaderChecker::new(),
             data_used: 0,
             data_calc: 0,
             data_nonl: 0,
-        }
+        })
     }
 
     fn check(&self) -> bool {
-- 
2.43.0


From 0ffadaee78eb5a18ee7950a82ca6332dba07e630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:01 +0000
Subject: [PATCH 44/79] fix: uniq --agg copies columns by position, whatever
 their names

---
 src/agg.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 311b2f7..2a55d46 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -668,14 +668,16 @@ impl LineAggList {
                 w.push(Box::new(x.clone()));
             }
         }
-        'outer: for (i, x) in head.iter().enumerate() {
+        'outer: for i in 0..head.len() {
             for y in &self.v {
                 if matches!(&y.out, AggType::Replace) && y.is_col(i) {
                     w.push(Box::new(y.clone()));
                     continue 'outer;
                 }
             }
-            w.push(Box::new(ColumnSingle::with_name(x).unwrap()));
+            w.push(Box::new(
+                ColumnSingle::with_name(&(i + 1).to_string()).unwrap(),
+            ));
         }
         for x in &self.v {
             if let AggType::Append(_s) = &x.out {
-- 
2.43.0


From d597d900cbdef0f4f3b75a35f480d7c7ce520ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:01 +0000
Subject: [PATCH 45/79] fix: tabs no longer panics on extra columns, many
 columns or a small terminal

---
 src/bin/cdx/tabs_main.rs |  4 ++--
 src/tabs.rs              | 12 +++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/bin/cdx/tabs_main.rs b/src/bin/cdx/tabs_main.rs
index 9ef042c..8eb0d2c 100644
--- a/src/bin/cdx/tabs_main.rs
+++ b/src/bin/cdx/tabs_main.rs
@@ -43,7 +43,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     } else {
         let base_rect = tabs::Rect::from_screen();
-        let mut lines_left = base_rect.height - (2 * files.len()) + 1;
+        let mut lines_left = (base_rect.height + 1).saturating_sub(2 * files.len());
         let mut files_left = files.len();
         for x in &files {
             let mut v = Vec::new();
@@ -53,7 +53,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             for x in &v {
                 writeln!(w, "{}", x)?;
             }
-            lines_left -= v.len();
+            lines_left = lines_left.saturating_sub(v.len());
             files_left -= 1;
             if files_left > 0 {
                 writeln!(w, "{:-<1$}", "", real)?;
diff --git a/src/tabs.rs b/src/tabs.rs
index fc24973..4198de4 100644
--- a/src/tabs.rs
+++ b/src/tabs.rs
@@ -30,7 +30,7 @@ impl Rect {
         if unsafe { libc::ioctl(2, libc::TIOCGWINSZ, &mut ws) } >= 0 {
             Self {
                 width: ws.ws_col as usize,
-                height: (ws.ws_row - 1) as usize,
+                height: ws.ws_row.saturating_sub(1) as usize,
             }
         } else {
             Self {
@@ -85,13 +85,16 @@ pub fn show(file: &str, screen: &Rect, text: &TextFileMode) -> Result<()> {
     for x in &lines {
         for (i, c) in x.iter().enumerate() {
             let width = UnicodeWidthStr::width(c);
+            if i == sizes.len() {
+                sizes.push(0);
+            }
             if sizes[i] < width {
                 sizes[i] = width;
             }
         }
     }
     let mut total: usize = sizes.iter().sum();
-    let target = screen.width - sizes.len();
+    let target = screen.width.saturating_sub(sizes.len());
     while total > target {
         dec_max(&mut sizes);
         total = sizes.iter().sum();
@@ -157,13 +160,16 @@ pub fn show2(file: &str, screen: &Rect, w: &mut Vec<String>, text: &TextFileMode
     for x in &lines {
         for (i, c) in x.iter().enumerate() {
             let width = UnicodeWidthStr::width(c);
+            if i == sizes.len() {
+                sizes.push(0);
+            }
             if sizes[i] < width {
                 sizes[i] = width;
             }
         }
     }
     let mut total: usize = sizes.iter().sum();
-    let target = screen.width - sizes.len();
+    let target = screen.width.saturating_sub(sizes.len());
     while total > target {
         dec_max(&mut sizes);
         total = sizes.iter().sum();
-- 
2.43.0


From fb59e3a9150edb58ae007805f17b1dbfcbb52676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:39 +0000
Subject: [PATCH 46/79] fix: wc --columns reports a line with too many columns
 instead of panicking

---
 src/bin/cdx/wc_main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index ffe5692..7f648c6 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -110,8 +110,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 continue;
             }
             loop {
-                for (i, x) in f.curr_line().iter().enumerate() {
-                    aggs[colmap[i]].agg.add(x);
+                for (i, col) in f.curr_line().iter().enumerate() {
+                    match colmap.get(i) {
+                        Some(c) => aggs[*c].agg.add(col),
+                        None => return err!("Line with too many columns in file {}", x),
+                    }
                 }
                 if f.getline()? {
                     break;
-- 
2.43.0


From 8a94ccde0bb8ebe661fac5ee4769383b49407f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:11 +0000
Subject: [PATCH 47/79] fix: uniq --agg-help and verify --show-matchers no
 longer panic

---
 src/bin/cdx/uniq_main.rs   | 4 ++++
 src/bin/cdx/verify_main.rs | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 001c353..24dfb7d 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -1,4 +1,5 @@
 use crate::prelude::*;
+use cdx::agg::AggMaker;
 use cdx::comp::{CompMaker, LineComp};
 use cdx::prelude::*;
 
@@ -182,6 +183,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             agg.push_append(&x.value)?;
         } else if x.name == "agg-pre" {
             agg.push_prefix(&x.value)?;
+        } else if x.name == "agg-help" {
+            AggMaker::help();
+            return Ok(());
         } else {
             unreachable!();
         }
diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index f25643b..86d3564 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -1,7 +1,7 @@
 use crate::prelude::*;
 use cdx::comp::comp_check;
 use cdx::expr;
-use cdx::matcher::Combiner;
+use cdx::matcher::{Combiner, MatchMaker};
 use cdx::prelude::*;
 use cdx::util::CheckLine;
 
@@ -59,6 +59,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else if x.name == "unique" {
             do_sort = true;
             do_unique = true;
+        } else if x.name == "show-matchers" {
+            MatchMaker::help();
+            return Ok(());
         } else if x.name == "show-const" {
             expr::show_const();
             return Ok(());
-- 
2.43.0


From da4516b4de9d7d75fd9a9d4da868fc7da8fabcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:08 +0000
Subject: [PATCH 48/79] fix: an empty list of patterns is reported instead of
 ending in a panic

---
 src/matcher.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matcher.rs b/src/matcher.rs
index 56cf87f..9326aa5 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1876,6 +1876,9 @@ impl MatchMaker {
         if let Some(mm) = m.multi_mode {
             let mut outer = Box::new(MatcherList::new_with(mm));
             let mut pattern = pattern;
+            if pattern.is_empty() {
+                return err!("Empty list of patterns");
+            }
             let delim = pattern.first();
             pattern = pattern.skip_first();
             for x in pattern.split(delim) {
-- 
2.43.0


From 59428b2365169a8ad8ef206e3814084c388bc93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:08 +0000
Subject: [PATCH 49/79] fix: a value for a column that does not exist is
 reported instead of ending in a panic

---
 src/column.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/column.rs b/src/column.rs
index 5e1d8b5..46185c7 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -458,6 +458,9 @@ impl ScopedValues {
             x.lookup(fieldnames)?;
             for i in 0..x.cols.columns.len() {
                 let j = x.cols.columns[i].num;
+                if j >= fieldnames.len() {
+                    return err!("Column {} out of bounds", j + 1);
+                }
                 self.strings[j].clone_from(&x.value);
                 self.has_value[j] = true;
             }
-- 
2.43.0


From 47f8f86d9e4ffae0b3a6993e52168bc5d0a0d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:23 +0000
Subject: [PATCH 50/79] fix: a line without its newline is not cut short, nor a
 panic if it is empty

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 6335b34..d123cd0 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -795,7 +795,7 @@ impl TextLine {
     /// whole line, without newline
     #[must_use]
     pub fn line_nl(&self) -> &[u8] {
-        &self.line[..self.line.len() - 1]
+        self.line.strip_suffix(b"\n").unwrap_or(&self.line)
     }
     /// whole line, with newline, as Vec
     pub fn raw(&mut self) -> &mut Vec<u8> {
-- 
2.43.0


From 4ff7ba71ef8da1e9c096062a887735be403dcf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:51 +0000
Subject: [PATCH 51/79] fix: lines read with quotes or backslashes are written
 as they were read, with their newline

---
 src/util.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index d123cd0..6b40f02 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -807,6 +807,8 @@ impl TextLine {
         self.line.extend_from_slice(&x.line[..]);
         self.parts.clear();
         self.parts.extend_from_slice(&x.parts[..]);
+        self.orig.clear();
+        self.orig.extend_from_slice(&x.orig[..]);
     }
     /// make a new `TextLine`
     #[must_use]
@@ -1638,7 +1640,7 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// open file for reading
@@ -1677,8 +1679,9 @@ impl Reader {
     }
     /// get next line of text
     pub fn getline(&mut self) -> Result<bool> {
-        self.loc.bytes += self.curr().line.len();
+        self.loc.bytes += self.curr().line().len();
         self.incr();
+        self.lines[self.curr].orig.clear();
         if self
             .cont
             .text
@@ -1716,12 +1719,12 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write_curr(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// write previous text line with newline
     pub fn write_prev(&self, w: &mut impl Write, lookback: usize) -> Result<()> {
-        w.write_all(&self.prev_line(lookback).line)?;
+        w.write_all(self.prev_line(lookback).line())?;
         Ok(())
     }
     /// write header
-- 
2.43.0


From 9eb1a3aa6a87dcc609ba55a9b76b26f34b5a90e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:51 +0000
Subject: [PATCH 52/79] fix: an empty last column is not dropped when reading
 quotes or backslashes

---
 src/util.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 6b40f02..b1b3482 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -646,9 +646,7 @@ pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8
         end += 1;
         last_was_slash = false;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
-    }
+    parts.push(FakeSlice { begin, end });
 }
 
 /// split a line by a delimiter. Remove trailing newline, if any.
@@ -691,9 +689,7 @@ pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>,
         }
         end += 1;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
-    }
+    parts.push(FakeSlice { begin, end });
 }
 
 /// A line of a text file, broken into columns.
-- 
2.43.0


From c7f57c23ed97026033453063f5734df19df13b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:07 +0000
Subject: [PATCH 53/79] fix: quoted columns are split and written so that they
 read back as the same value

---
 src/util.rs | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index b1b3482..88a63c1 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -556,18 +556,18 @@ fn write_backslash(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()
 }
 
 fn write_quotes(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()> {
-    let mut made_quote = false;
+    if !buf.iter().any(|ch| *ch == tab || *ch == eol || *ch == b'"') {
+        w.write_all(buf)?;
+        return Ok(());
+    }
+    w.write_all(b"\"")?;
     for ch in buf {
         if *ch == b'"' {
-            w.write_all(b"\"\"")?;
-            continue;
-        }
-        if !made_quote && (*ch == tab || *ch == eol) {
-            made_quote = true;
-            w.write_all(&[b'"'])?;
+            w.write_all(b"\"")?;
         }
         w.write_all(&[*ch])?;
     }
+    w.write_all(b"\"")?;
     Ok(())
 }
 
@@ -660,30 +660,28 @@ pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>,
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
     let mut last_was_quote = false;
+    let mut opened_within = false;
     let mut in_quote = false;
     for ch in line {
-        if in_quote {
-            if last_was_quote {
-                if *ch == b'"' {
-                    tmp.push(*ch);
-                    end += 1;
-                    continue;
-                } else {
-                    in_quote = false;
-                    // not continue
-                }
-            } else if *ch == b'"' {
-                last_was_quote = true;
-                continue;
+        if *ch == b'"' {
+            // two quotes in a row stand for one, except around an empty value
+            if last_was_quote || opened_within {
+                tmp.push(*ch);
+                end += 1;
+                last_was_quote = false;
+                opened_within = false;
+            } else {
+                last_was_quote = in_quote;
+                opened_within = !in_quote && begin != end;
             }
-        } else if *ch == b'"' {
-            in_quote = true;
-            last_was_quote = true;
+            in_quote = !in_quote;
             continue;
         }
+        last_was_quote = false;
+        opened_within = false;
 
         tmp.push(*ch);
-        if *ch == delim {
+        if *ch == delim && !in_quote {
             parts.push(FakeSlice { begin, end });
             begin = end + 1;
         }
-- 
2.43.0


From 3fed8fdf6763690e09b8426e3288780d0bcd60be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:07 +0000
Subject: [PATCH 54/79] fix: a file without header has as many columns as its
 first line, whatever the delimiter

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 88a63c1..20d44bf 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1353,7 +1353,7 @@ impl InfileContext {
             for i in 1..=line.len() {
                 head_str += "c";
                 head_str += &i.to_string();
-                head_str += "\t";
+                head_str.push(self.text.delim as char);
             }
             head_str.pop();
             head_str += "\n";
-- 
2.43.0


From 92cb2598dd2b285875c96d09e8a39b3b08aeb010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:35 +0000
Subject: [PATCH 55/79] fix: a count starting at the largest number no longer
 overflows

---
 src/agg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agg.rs b/src/agg.rs
index 2a55d46..6742331 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1232,7 +1232,7 @@ impl Agg for Count {
         self.val as f64
     }
     fn add(&mut self, _data: &[u8]) {
-        self.val += 1;
+        self.val = self.val.saturating_add(1);
     }
     fn result(&mut self, w: &mut dyn Write, fmt: NumFormat) -> Result<()> {
         fmt.print(self.value(), w)
-- 
2.43.0


From 04900be708d78bbb3794d74f830833c7edc272b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:57 +0000
Subject: [PATCH 56/79] fix: paste writes data in the output format, like the
 header

---
 src/bin/cdx/paste_main.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 383379a..0d6fd1e 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -88,10 +88,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         curr_cols += f.header().len();
         fds.push(f);
     }
+    let text_out = settings.text_out();
     let mut w = get_writer("-")?;
     header.check_rename()?;
     if do_header {
-        w.write_all(header.get_head(&settings.text_out()).as_bytes())?;
+        w.write_all(header.get_head(&text_out).as_bytes())?;
     }
     dflt.lookup(&header.fieldnames())?;
     while num_live > 0 {
@@ -126,24 +127,24 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         let mut need_delim = false;
         for (i, f) in fds.iter_mut().enumerate() {
             if need_delim {
-                w.write_all(b"\t")?;
+                w.write_all(&[text_out.delim])?;
             }
             need_delim = true;
             if f.is_done() {
                 if use_last {
-                    w.write_all(f.prev_nl(1))?;
+                    write_columns(&mut w.0, f.prev_line(1), &text_out)?;
                 } else {
                     let mut nd = false;
                     for j in rngs[i].start..rngs[i].end {
                         if nd {
-                            w.write_all(b"\t")?;
+                            w.write_all(&[text_out.delim])?;
                         }
                         nd = true;
-                        w.write_all(dflt.get(j).as_bytes())?;
+                        text_out.write(&mut w.0, dflt.get(j).as_bytes())?;
                     }
                 }
             } else {
-                w.write_all(f.curr_nl())?;
+                write_columns(&mut w.0, f.curr(), &text_out)?;
                 if f.getline()? {
                     num_dead += 1;
                     num_live -= 1;
@@ -155,3 +156,13 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     w.flush()?;
     Ok(())
 }
+
+fn write_columns(w: &mut impl Write, line: &TextLine, text: &TextFileMode) -> Result<()> {
+    for (i, x) in line.iter().enumerate() {
+        if i > 0 {
+            w.write_all(&[text.delim])?;
+        }
+        text.write(w, x)?;
+    }
+    Ok(())
+}
-- 
2.43.0


From 2830f9bdfe2b0e2b034c24fba31ddc6ae2c06239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:38 +0000
Subject: [PATCH 57/79] fix: headers not marked with CDX are also compared and
 written once

---
 src/util.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 20d44bf..3dbd420 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2003,7 +2003,7 @@ impl HeaderChecker {
     pub fn check_file(&mut self, file: &Reader, fname: &str) -> Result<bool> {
         let first = !self.saw_one;
         if file.has_header() {
-            self.check(file.header().line.as_bytes(), fname)?;
+            self.check_header(file.header().line.as_bytes(), fname)?;
         } else {
             self.check(b"fake", fname)?;
         }
@@ -2018,7 +2018,9 @@ impl HeaderChecker {
             self.check(b"fake", fname)?;
             return Ok(false);
         }
-        self.check(header, fname)
+        // not every header mode marks the header with ' CDX'
+        let is_head = is_valid_cdx(header, self.mode, fname)? || self.mode != HeaderMode::Ignore;
+        self.check_line(header, is_head, fname)
     }
 
     /// call for the first line of every input file
@@ -2026,6 +2028,10 @@ impl HeaderChecker {
     pub fn check(&mut self, first_line: &[u8], fname: &str) -> Result<bool> {
         // FIXME - if is_cdx, make sure is also a valid header
         let cdx = is_valid_cdx(first_line, self.mode, fname)?;
+        self.check_line(first_line, cdx, fname)
+    }
+
+    fn check_line(&mut self, first_line: &[u8], cdx: bool, fname: &str) -> Result<bool> {
         if first_line.is_empty() {
             Ok(false)
         } else if first_line.last().unwrap() != &b'\n' && cdx {
-- 
2.43.0


From a47025e103d32e345d8e45738db366bc78ed75b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:47 +0000
Subject: [PATCH 58/79] fix: wc and cgrep --location delimit all columns like
 the header

---
 src/bin/cdx/cgrep_main.rs |  2 +-
 src/bin/cdx/wc_main.rs    | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index ef62a94..b0f03d0 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -61,7 +61,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         loop {
             if list.ok(f.curr_line()) ^ reverse {
                 // write previous lines of context if necessary
-                loc.write_data(&mut w.0, b'\t', f.loc())?;
+                loc.write_data(&mut w.0, settings.text_out().delim, f.loc())?;
                 f.write_curr(&mut w.0)?;
             } else {
                 // write more lines of context if necessary
diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 7f648c6..f7f161b 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -78,6 +78,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     }
     let nada = TextLine::new();
+    let delim = settings.text_out().delim;
     let mut w = get_writer("-")?;
     let mut first_file = true;
     let mut totals = Vec::new();
@@ -150,11 +151,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             for x in &aggs {
                 if show_file_name != Tri::No {
                     w.write_all(x.name.as_bytes())?;
-                    w.write_all(b"\t")?;
+                    w.write_all(&[delim])?;
                 }
                 for i in 0..x.agg.len() {
                     if i != 0 {
-                        w.write_all(b"\t")?;
+                        w.write_all(&[delim])?;
                     }
                     x.agg.get(i).agg.borrow_mut().result(&mut w.0, fmt)?;
                 }
@@ -223,7 +224,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if !total_only {
                 if show_file {
                     w.write_all(x.as_bytes())?;
-                    w.write_all(b"\t")?;
+                    w.write_all(&[delim])?;
                 }
                 c_write.write(&mut w.0, &nada)?;
             }
@@ -236,11 +237,12 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     }
     if do_totals {
         if show_file {
-            w.write_all(b"totals\t")?;
+            w.write_all(b"totals")?;
+            w.write_all(&[delim])?;
         }
         for (i, t) in totals.iter().enumerate() {
             if i != 0 {
-                w.write_all(b"\t")?;
+                w.write_all(&[delim])?;
             }
             fmt.print(*t, &mut w.0)?;
         }
-- 
2.43.0


From 30f16f80f3a77993e7c6d2534e56a8d37e3c7b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:22 +0000
Subject: [PATCH 59/79] fix: cat writes the header once when every file has one
 not marked with CDX

---
 src/bin/cdx/cat_main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index f065940..2434fe8 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -1,7 +1,7 @@
 use crate::prelude::*;
 use cdx::column::{ColumnCount, ColumnLiteral, ColumnWhole};
 use cdx::prelude::*;
-use cdx::util::get_reader;
+use cdx::util::{get_reader, HeadMode};
 
 #[derive(Debug, Copy, Clone, PartialEq)]
 enum PadMode {
@@ -188,7 +188,12 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if n == 0 {
                 continue;
             }
-            if settings.checker.check(&first_line, &x)? {
+            let show = if settings.text_in.head_mode == HeadMode::Yes {
+                settings.checker.check_header(&first_line, &x)?
+            } else {
+                settings.checker.check(&first_line, &x)?
+            };
+            if show {
                 w.write_all(&first_line)?;
                 last_was_cr = first_line.last().unwrap() == &b'\n';
             }
-- 
2.43.0


From 0f67c350556905705338426d5352c129d20638df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:31 +0000
Subject: [PATCH 60/79] fix: size suffixes beyond K and k multiply by powers of
 1024 and 1000

---
 src/num.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 7d0947d..c65b5a2 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -269,11 +269,11 @@ const P10_LETTERS: &[u8] = b"0kmgtpezy";
 const P2_VALUES_U: [usize; 9] = [
     1,
     1024,
-    1024 ^ 2,
-    1024 ^ 3,
-    1024 ^ 4,
-    1024 ^ 5,
-    1024 ^ 6,
+    1024_usize.pow(2),
+    1024_usize.pow(3),
+    1024_usize.pow(4),
+    1024_usize.pow(5),
+    1024_usize.pow(6),
     usize::MAX,
     usize::MAX,
 ];
@@ -291,11 +291,11 @@ const P2_VALUES_F: [f64; 9] = [
 const P10_VALUES_U: [usize; 9] = [
     1,
     1000,
-    1000 ^ 2,
-    1000 ^ 3,
-    1000 ^ 4,
-    1000 ^ 5,
-    1000 ^ 6,
+    1000_usize.pow(2),
+    1000_usize.pow(3),
+    1000_usize.pow(4),
+    1000_usize.pow(5),
+    1000_usize.pow(6),
     usize::MAX,
     usize::MAX,
 ];
-- 
2.43.0


From 23fda7d0d060219696d083a54298ed7906a8c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:04 +0000
Subject: [PATCH 61/79] fix: ' CDX' is not a column name when the delimiter is
 a space

---
 src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 3dbd420..ef21b5c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -373,6 +373,9 @@ impl TextFileMode {
         line.split(self.delim);
         if line.line.starts_with(" CDX") {
             line.parts.remove(0);
+            if self.delim == b' ' && !line.parts.is_empty() {
+                line.parts.remove(0);
+            }
         }
     }
     /// append a newline, if line does not already end with one. Return false.
-- 
2.43.0


From 63969511c6ab03703949ca0f90605d868ceabf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:43 +0000
Subject: [PATCH 62/79] fix: an empty selection of columns does not write an
 extra delimiter

cut -f ~1- -f one wrote "\tvalue" below the header "one", shifting every column.
---
 src/column.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 46185c7..2d40c58 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -547,6 +547,10 @@ pub trait ColumnFun {
     fn write(&mut self, w: &mut dyn Write, line: &TextLine, text: &TextFileMode) -> Result<()>;
     /// resolve any named columns
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()>;
+    /// true if no columns at all are written
+    fn is_empty(&self) -> bool {
+        false
+    }
 }
 
 /// write a single column
@@ -1370,6 +1374,9 @@ impl ColumnFun for ReaderColumns {
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
         self.columns.lookup(fieldnames)
     }
+    fn is_empty(&self) -> bool {
+        self.columns.get_cols().is_empty()
+    }
 }
 
 /// A collection of `ColumnFun` writers
@@ -1418,17 +1425,17 @@ impl Writer {
     }
     /// Write the column values
     pub fn write(&mut self, w: &mut dyn Write, line: &TextLine) -> Result<()> {
-        let mut iter = self.v.iter_mut();
-        match iter.next() {
-            None => {}
-            Some(first) => {
-                first.write(w, line, &self.text)?;
-                for x in iter {
-                    w.write_all(&[self.text.delim])?;
-                    x.write(w, line, &self.text)?;
-                }
+        let mut need_delim = false;
+        for x in &mut self.v {
+            if x.is_empty() {
+                continue;
             }
-        };
+            if need_delim {
+                w.write_all(&[self.text.delim])?;
+            }
+            need_delim = true;
+            x.write(w, line, &self.text)?;
+        }
         w.write_all(&[b'\n'])?;
         Ok(())
     }
-- 
2.43.0


From 1e30e5faa50536bf944a823f34eb11da2e29a585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:34 +0000
Subject: [PATCH 63/79] fix: a value that cannot be transformed is an error,
 not a panic

cut -f 1+from_base64 on a value that is not base64 panicked.
---
 src/column.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 2d40c58..2478798 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1088,12 +1088,12 @@ impl ColumnSet {
         Ok(())
     }
 
-    fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> &'a [u8] {
+    fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> Result<&'a [u8]> {
         let col = &self.columns[col];
         if let Some(trans) = col.trans {
-            self.trans[trans].trans(cols.get(col.num), cols).unwrap()
+            self.trans[trans].trans(cols.get(col.num), cols)
         } else {
-            cols.get(col.num)
+            Ok(cols.get(col.num))
         }
     }
 
@@ -1110,10 +1110,10 @@ impl ColumnSet {
         if self.columns.is_empty() {
             return Ok(());
         }
-        text.write(w, self.fetch(cols, 0))?;
+        text.write(w, self.fetch(cols, 0)?)?;
         for i in 1..self.columns.len() {
             w.write_all(&[text.delim])?;
-            text.write(w, self.fetch(cols, i))?;
+            text.write(w, self.fetch(cols, i)?)?;
         }
         Ok(())
     }
-- 
2.43.0


From 6b2ab72dc0f1b30fff888e88a9e0183a592172fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:43 +0000
Subject: [PATCH 64/79] fix: c0 in an expression is an undefined variable, not
 a panic

---
 src/expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 8d19549..ca879ee 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -492,8 +492,11 @@ impl Expr {
                 static ref CN: Regex = Regex::new("^c([0-9]+)$").unwrap();
             }
             if let Some(cn) = CN.captures(&y.name) {
-                y.col = Some(cn.get(1).unwrap().as_str().to_usize_whole(b"", "").unwrap() - 1);
-                continue;
+                let num = cn.get(1).unwrap().as_str().to_usize_whole(b"", "")?;
+                if num > 0 {
+                    y.col = Some(num - 1);
+                    continue;
+                }
             }
             // FIXME - some way to declare other variables
             return err!("Undefined variable {}", y.name);
-- 
2.43.0


From dac3752adb554e346a9b6b872e324e07d58a054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 65/79] fix: transposing a file with no lines below the header
 adds no empty column

---
 src/transpose.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transpose.rs b/src/transpose.rs
index c7a1b7b..8ec172a 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -11,7 +11,7 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
     }
     let mut data = Vec::new();
     let mut lines = 0;
-    while lines < max_lines {
+    while lines < max_lines && !f.is_done() {
         data.push(f.curr().clone());
         lines += 1;
         if f.getline()? {
-- 
2.43.0


From 9e97c4ccf01fba4d362256cc4bfae9033929c328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 66/79] fix: acos is the arc cosine, not the absolute value

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index ca879ee..632a428 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -319,7 +319,7 @@ fn apply_func(op: FuncOp, args: &[f64]) -> f64 {
         Sin, Sinh, Sqrt, Tan, Tanh, Tgamma, Trunc, Yn, J0, J1, Y0, Y1,
     };
     match op {
-        Acos => args[0].abs(),
+        Acos => args[0].acos(),
         Acosh => args[0].acosh(),
         Asinh => args[0].asinh(),
         Asin => args[0].asin(),
-- 
2.43.0


From 6bc563b2ec3f384ecdeb653c1faa8913ae854faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 67/79] fix: 0! is 1

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 632a428..74cc393 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -652,7 +652,7 @@ fn factorial(x: f64) -> f64 {
 }
 
 const FACTORIAL: [f64; 171] = [
-    0.0,
+    1.0,
     1.0,
     2.0,
     6.0,
-- 
2.43.0


From 3235d5a9d811d71c93f65f2218e2d0e3da685987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 68/79] fix: the first argument of a function may start with a
 sign

---
 src/tok2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 12fa02d..21eb0ca 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -69,7 +69,7 @@ const fn can_binary(tok: &Token) -> bool {
         Comma => false,
         Number(_) => true,
         Var(_) => true,
-        Func(_, _) => true,
+        Func(_, _) => false,
     }
 }
 pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
-- 
2.43.0


From 81b535d9766b43e9fdd5dd13eb342e8fa7fe737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:05 +0000
Subject: [PATCH 69/79] fix: the operators == != <= >= can be used in
 expressions

---
 src/tok2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 21eb0ca..48f5bdf 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -119,7 +119,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '!' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::NE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Unary(UnaryOp::Fact));
                 }
@@ -127,7 +127,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '<' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::LE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::LT));
                 }
@@ -135,7 +135,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '>' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::GE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::GT));
                 }
@@ -143,7 +143,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '=' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::EQ));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     return err!("Equal can't be followed by {} in '{}'", next, orig);
                 }
-- 
2.43.0


From 595a2e96874e29944090079a1351015a757891ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:05 +0000
Subject: [PATCH 70/79] fix: a factorial may be followed by plus or minus

---
 src/tok2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 48f5bdf..fe3a17d 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -63,7 +63,7 @@ const fn can_binary(tok: &Token) -> bool {
     use Token::{Binary, Comma, Func, LParen, Number, RParen, Unary, Var};
     match tok {
         Binary(_) => false,
-        Unary(_) => false,
+        Unary(op) => matches!(op, UnaryOp::Fact),
         LParen => false,
         RParen => true,
         Comma => false,
-- 
2.43.0


From 82bf914959fb94e077bdbd798b0264bf2b809864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:05 +0000
Subject: [PATCH 71/79] fix: names in expressions may contain underscores, as
 M_PI does

---
 src/tok2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index fe3a17d..4dc5790 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -152,7 +152,9 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
                 if ch.is_alphabetic() {
                     let mut var = String::new();
                     var.push(ch);
-                    while !input.is_empty() && input.first().is_alphanumeric() {
+                    while !input.is_empty()
+                        && (input.first().is_alphanumeric() || input.first() == '_')
+                    {
                         var.push(input.take_first());
                     }
                     res.push(Token::Var(var));
-- 
2.43.0


From 31f58923bc03ac17cb4da4aa5850fd00b1b6e37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:58 +0000
Subject: [PATCH 72/79] fix: generators with extreme parameters give an error,
 not a panic

---
 src/textgen.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/textgen.rs b/src/textgen.rs
index c314f7a..c7d6dc5 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -41,12 +41,17 @@ impl DecimalGen {
                 spec = &spec[1..];
             }
             if !spec.is_empty() {
+                let limit = |digits: &str| {
+                    10_usize
+                        .checked_pow(digits.len() as u32)
+                        .ok_or_else(|| anyhow!("Too many digits in decimal generator '{spec}'"))
+                };
                 if let Some((a, b)) = spec.split_once('.') {
-                    pre = 10_usize.pow(a.len() as u32);
+                    pre = limit(a)?;
                     post_size = b.len();
-                    post = 10_usize.pow(post_size as u32);
+                    post = limit(b)?;
                 } else {
-                    pre = 10_usize.pow(spec.len() as u32);
+                    pre = limit(spec)?;
                 }
             }
         }
@@ -143,7 +148,7 @@ impl NormalDistGen {
         }
         Ok(Self {
             fmt,
-            norm: Normal::new(mean, dev).unwrap(),
+            norm: Normal::new(mean, dev)?,
         })
     }
 }
@@ -185,7 +190,7 @@ impl CountGen {
 }
 impl Gen for CountGen {
     fn write(&mut self, w: &mut dyn Write, loc: &Where) -> Result<()> {
-        write!(w, "{}", loc.line as isize + self.start - 1)?;
+        write!(w, "{}", (loc.line as isize - 1).saturating_add(self.start))?;
         Ok(())
     }
 }
-- 
2.43.0


From c975169a30524fe705fe386d27990fd9a7ad117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:50 +0000
Subject: [PATCH 73/79] fix: an absurdly long range of columns is an error, not
 an abort

---
 src/column.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/column.rs b/src/column.rs
index 2478798..735149a 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -958,6 +958,9 @@ impl ColumnSet {
             return err!("Start greater than end : {}", rng);
         }
         let mut res = Vec::new();
+        if res.try_reserve(end - start + 1).is_err() {
+            return err!("Too many columns in range : {}", rng);
+        }
         for i in start..=end {
             res.push(OutCol::new(i, name));
         }
-- 
2.43.0


From 4b3bbff0d22069c13ddbfc8627e38f6c957108a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:41 +0000
Subject: [PATCH 74/79] fix: an absurd precision in a number format is an
 error, not a panic

---
 src/num.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/num.rs b/src/num.rs
index c65b5a2..b2a5564 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -164,6 +164,9 @@ impl NumFormat {
             Ok(Self::Power10)
         } else if let Some((a, b)) = spec.split_once('.') {
             let p = b.to_usize_whole(spec.as_bytes(), "Num Format")?;
+            if p > usize::from(u16::MAX) {
+                return err!("Precision too large in number format '{}'", spec);
+            }
             if a.eq_ignore_ascii_case("plain") {
                 Ok(Self::Plain(Some(p)))
             } else if a.eq_ignore_ascii_case("short") {
-- 
2.43.0


From 1aec2ca43c6748c1da60b4a6c783fbbd05dcdc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:59 +0000
Subject: [PATCH 75/79] fix: sample --for with a huge step no longer panics

---
 src/bin/cdx/sample_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index 0e0eb8c..9a0991f 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -158,7 +158,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             while f.line_number() <= floop.to {
                 if f.line_number() == next {
                     w.write_all(f.curr_line().line())?;
-                    next += floop.by;
+                    next = next.saturating_add(floop.by);
                 }
                 if f.getline()? {
                     break;
-- 
2.43.0


From 0d14e43a2d100fe88de1fe815356c168e139a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:59 +0000
Subject: [PATCH 76/79] fix: sample no longer allocates room for the whole
 sample before reading

---
 src/sampler.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/sampler.rs b/src/sampler.rs
index 1482c1f..f145933 100644
--- a/src/sampler.rs
+++ b/src/sampler.rs
@@ -11,7 +11,7 @@ use crate::prelude::*;
 pub struct Smooth {
     small: usize,       // goal size
     large: usize,       // maximum size
-    data: Vec<Vec<u8>>, // always length large
+    data: Vec<Vec<u8>>, // grows as needed, never longer than large
     jump: usize,        // number of lines between entries
     pos: usize,         // number of lines between last and penultimate entries in data
     size: usize,        // current number of 'live' elements in data
@@ -22,23 +22,19 @@ impl Smooth {
     #[must_use]
     pub fn new(sz: usize) -> Self {
         let small = sz.max(2);
-        let large = (small * 2 - 2).max(small + 1); // must exceed small, or collapse makes no room
-        let mut data = Vec::with_capacity(large);
-        for _ in 0..large {
-            data.push(Vec::new());
-        }
+        let large = (small.saturating_mul(2) - 2).max(small.saturating_add(1)); // must exceed small, or collapse makes no room
         Self {
             small,
             large,
-            data,
+            data: Vec::new(),
             jump: 1,
             pos: 0,
             size: 0,
         }
     }
     fn verify(&self) -> bool {
-        debug_assert!(self.data.len() == self.large);
-        debug_assert!(self.size <= self.large);
+        debug_assert!(self.data.len() <= self.large);
+        debug_assert!(self.size <= self.data.len());
         debug_assert!(self.size <= self.large);
         //	debug_assert!(self.pos <= self.jump);
         true
@@ -51,6 +47,9 @@ impl Smooth {
                 self.jump *= 2;
                 self.collapse();
             }
+            if self.size == self.data.len() {
+                self.data.push(Vec::new());
+            }
             self.data[self.size].clear();
             self.data[self.size].extend(x);
             self.size += 1;
-- 
2.43.0


From 6edb9578941cf99c0b3d31ee3e40c6b790ccd4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:59 +0000
Subject: [PATCH 77/79] fix: binsearch with a huge context no longer spins at
 the end of the file

---
 src/bin/cdx/binsearch_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 0d7cdc2..237a6a5 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -166,6 +166,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             start = find_prev(m.data(), start);
         }
         for _x in 0..after {
+            if stop == m.data().len() {
+                break;
+            }
             stop = find_end(m.data(), stop);
         }
         if filename.is_none() {
-- 
2.43.0


From d3355818c7d4964a425915132cd179b242545328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:11 +0000
Subject: [PATCH 78/79] fix: numbering lines from a huge start no longer panics

---
 src/column.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 735149a..40ebfe0 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -660,7 +660,7 @@ impl ColumnFun for ColumnWhole {
 /// write an increasing count, e.g. cat -n
 #[derive(Debug, Default, Clone)]
 pub struct ColumnCount {
-    num: isize,
+    num: i128, // wide enough to count up from any isize
     name: String,
 }
 
@@ -669,7 +669,7 @@ impl ColumnCount {
     #[must_use]
     pub fn new(num: isize, name: &str) -> Self {
         Self {
-            num,
+            num: num as i128,
             name: name.to_string(),
         }
     }
-- 
2.43.0


From 5026f08def26575064b9ce169e00acc72121aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:31 +0000
Subject: [PATCH 79/79] hook: output buffer size can be set in simulation
 builds (cfg cdx_sim)

---
 src/util.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index ef21b5c..afb33b3 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1209,6 +1209,7 @@ impl AsMut<io::BufWriter<Box<dyn Write>>> for Outfile {
 }
 
 /// Make an Outfile from a file name
+#[allow(unexpected_cfgs)]
 pub fn get_writer(name: &str) -> Result<Outfile> {
     let inner: Box<dyn Write> = {
         if name == "-" {
@@ -1219,6 +1220,15 @@ pub fn get_writer(name: &str) -> Result<Outfile> {
             Box::new(fs::File::create(name)?)
         }
     };
+    // simulation hook : compiled only with --cfg cdx_sim
+    #[cfg(cdx_sim)]
+    if let Some(x) = std::env::var("CDX_SIM_OUT_BUFFER")
+        .ok()
+        .and_then(|x| x.parse().ok())
+    {
+        let buffered = io::BufWriter::with_capacity(x, inner);
+        return Ok(Outfile::new(buffered, name));
+    }
     Ok(Outfile::new(io::BufWriter::new(inner), name))
 }
 
-- 
2.43.0

