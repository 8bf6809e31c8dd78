From 5d3a4709d3ed68ea284d06bbab973d22c1de9e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:41 +0000
Subject: [PATCH 01/42] verif hook: include an external harness module under
 cfg(posy_verif)

---
 src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 65ffa5d..417c5a1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -15,6 +15,10 @@ mod seek_slice;
 mod test_util;
 mod trampolines;
 mod tree;
+#[cfg(posy_verif)]
+mod verif {
+    include!(env!("POSY_VERIF_ROOT"));
+}
 
 use std::path::Path;
 
-- 
2.43.0


From 4483e46ef047f9418d43b50ea342d6da7c3446cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 02/42] fix: collapse runs of separators when normalizing
 package names (PEP 503)

---
 src/vocab/package_name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/package_name.rs b/src/vocab/package_name.rs
index 730a246..1378f21 100644
--- a/src/vocab/package_name.rs
+++ b/src/vocab/package_name.rs
@@ -28,7 +28,7 @@ impl TryFrom<&str> for PackageName {
         });
         // https://www.python.org/dev/peps/pep-0503/#normalized-names
         static NAME_NORMALIZE: Lazy<Regex> =
-            Lazy::new(|| Regex::new(r"[-_.]").unwrap());
+            Lazy::new(|| Regex::new(r"[-_.]+").unwrap());
 
         if !NAME_VALIDATE.is_match(as_given) {
             return Err(eyre!("Invalid package name {:?}", as_given));
-- 
2.43.0


From 2db40b0db647abdce6df0f767311d995dbc5b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 03/42] fix: order package names by their normalized form only,
 like equality

---
 src/vocab/package_name.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vocab/package_name.rs b/src/vocab/package_name.rs
index 1378f21..e0dfd2c 100644
--- a/src/vocab/package_name.rs
+++ b/src/vocab/package_name.rs
@@ -3,7 +3,8 @@ use crate::prelude::*;
 #[derive(Debug, Clone, DeserializeFromStr, Derivative)]
 #[derivative(Hash, PartialEq, Eq, PartialOrd, Ord)]
 pub struct PackageName {
-    #[derivative(Hash = "ignore", PartialEq = "ignore", PartialOrd = "ignore")]
+    #[derivative(Hash = "ignore", PartialEq = "ignore")]
+    #[derivative(PartialOrd = "ignore", Ord = "ignore")]
     as_given: String,
     normalized: String,
 }
-- 
2.43.0


From 1fb9a1a27cf0ae0a0fb254def2ed5ccbdb81e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 04/42] fix: the smallest PEP 440 version is 0.dev0, not
 0a0.dev0

---
 src/vocab/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index 60dafdd..d6dccf9 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -16,7 +16,7 @@ use crate::prelude::*;
 )]
 pub struct Version(pub pep440::Version);
 
-pub static VERSION_ZERO: Lazy<Version> = Lazy::new(|| "0a0.dev0".try_into().unwrap());
+pub static VERSION_ZERO: Lazy<Version> = Lazy::new(|| "0.dev0".try_into().unwrap());
 
 pub static VERSION_INFINITY: Lazy<Version> = Lazy::new(|| {
     // Technically there is no largest PEP 440 version. But this should be good
-- 
2.43.0


From 40caf2f8152dc4018c834ce9c3e1b45018381401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 05/42] fix: Version::next skipped versions after post releases
 and local versions, and could overflow

---
 src/vocab/version.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index d6dccf9..80d2cae 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -49,14 +49,37 @@ impl Version {
         //   then the next possible version is .dev(N+1)
         //
         // - You can't attach a .postN after a .postN. So if you already have
-        //   a .postN, then the next possible value is .post(N+1).
+        //   a .postN, then the next possible value is .post(N+1).dev0.
         //
         // - You *can* attach a .postN after anything else. And a .devN after that. So
         // to get the next possible value, attach a .post0.dev0.
-        if let Some(dev) = &mut new.0.dev {
-            *dev += 1;
-        } else if let Some(post) = &mut new.0.post {
-            *post += 1;
+        //
+        // - If there's a local suffix, then everything that starts with that suffix is
+        //   larger than self, and smaller than any version without a local suffix that's
+        //   larger than self. So we want the smallest possible extra local segment.
+        //   There's no valid version that has an empty local segment, but it sorts
+        //   before all the ones that are valid.
+        let smallest_local = pep440::LocalVersion::StringComponent(String::new());
+        if !new.0.local.is_empty() {
+            new.0.local.push(smallest_local);
+        } else if let Some(dev) = new.0.dev {
+            if let Some(next_dev) = dev.checked_add(1) {
+                new.0.dev = Some(next_dev);
+            } else if new.0.pre.is_some() || new.0.post.is_some() {
+                // Nothing fits between X.dev(MAX) and X
+                new.0.dev = None;
+            } else {
+                // ...except that X.dev(MAX) is followed by X's other pre-releases
+                new.0.pre = Some(pep440::PreRelease::A(0));
+                new.0.dev = Some(0);
+            }
+        } else if let Some(post) = new.0.post {
+            if let Some(next_post) = post.checked_add(1) {
+                new.0.post = Some(next_post);
+                new.0.dev = Some(0);
+            } else {
+                new.0.local.push(smallest_local);
+            }
         } else {
             new.0.post = Some(0);
             new.0.dev = Some(0);
-- 
2.43.0


From 030d3c97cc7078a3d01596e3f18674134e36a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 06/42] fix: >V.postN must accept the pre-releases of later
 post releases

---
 src/vocab/specifier.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 8f8a56e..f0c6090 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -187,10 +187,8 @@ impl CompareOp {
                 // the given version unless V itself is a post release."
                 StrictlyGreaterThan => {
                     let mut low = version.clone();
-                    if let Some(dev) = &version.0.dev {
-                        low.0.dev = Some(dev + 1);
-                    } else if let Some(post) = &version.0.post {
-                        low.0.post = Some(post + 1);
+                    if version.0.dev.is_some() || version.0.post.is_some() {
+                        low = version.next();
                     } else {
                         // Otherwise, want to increment either the pre-release (a0 ->
                         // a1), or the "last" release segment. But working with
-- 
2.43.0


From c2389b43f5ead5fca5632e2f06d1c25bad698e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 07/42] fix: <V.postN must accept V itself and its earlier post
 releases

---
 src/vocab/specifier.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index f0c6090..436d6e2 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -207,7 +207,6 @@ impl CompareOp {
                     if (&version.0.pre, &version.0.dev) == (&None, &None) {
                         let mut new_max = version;
                         new_max.0.dev = Some(0);
-                        new_max.0.post = None;
                         new_max.0.local = vec![];
                         vec![VERSION_ZERO.clone()..new_max]
                     } else {
-- 
2.43.0


From 73d57e9aa6ce1ae27ce431f5ea529b8e6d3d80b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 08/42] fix: version numbers at the u32 limit in wildcard and
 ~= specifiers overflowed

---
 src/vocab/specifier.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 436d6e2..249cca0 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -127,6 +127,11 @@ fn parse_version_wildcard(input: &str) -> Result<(Version, bool)> {
     Ok((version, wildcard))
 }
 
+fn increment(n: u32) -> Result<u32> {
+    n.checked_add(1)
+        .ok_or_else(|| eyre!("version number {} is too large to be used here", n))
+}
+
 /// Converts a comparison like ">= 1.2" into a union of [half, open) ranges.
 ///
 /// Has to take a string, not a Version, because == and != can take "wildcards", which
@@ -148,16 +153,17 @@ impl CompareOp {
             // .* can actually appear after .postX or .aX, so we need to find the last
             // numeric entry in the version, and increment that.
             if let Some(post) = high.0.post {
-                high.0.post = Some(post + 1)
+                high.0.post = Some(increment(post)?)
             } else if let Some(pre) = high.0.pre {
                 use pep440::PreRelease::*;
                 high.0.pre = Some(match pre {
-                    RC(n) => RC(n + 1),
-                    A(n) => A(n + 1),
-                    B(n) => B(n + 1),
+                    RC(n) => RC(increment(n)?),
+                    A(n) => A(increment(n)?),
+                    B(n) => B(increment(n)?),
                 })
             } else {
-                *high.0.release.last_mut().unwrap() += 1;
+                let last = high.0.release.last_mut().unwrap();
+                *last = increment(*last)?;
             }
             high.0.dev = Some(0);
             match self {
@@ -232,7 +238,8 @@ impl CompareOp {
                     // Unwraps here are safe because we confirmed that the vector has at
                     // least 2 elements above.
                     new_max.0.release.pop().unwrap();
-                    *new_max.0.release.last_mut().unwrap() += 1;
+                    let last = new_max.0.release.last_mut().unwrap();
+                    *last = increment(*last)?;
                     vec![version..new_max]
                 }
             }
-- 
2.43.0


From e6967228a4c350bab360e2036840ee7d428d8a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:59 +0000
Subject: [PATCH 09/42] fix: a SeekSlice can be positioned at its end

---
 src/seek_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seek_slice.rs b/src/seek_slice.rs
index 9ba8bd2..f029a1d 100644
--- a/src/seek_slice.rs
+++ b/src/seek_slice.rs
@@ -42,7 +42,7 @@ impl<T: Seek> Seek for SeekSlice<T> {
         };
         match maybe_goal_idx {
             Some(goal_idx) => {
-                if goal_idx < self.start || goal_idx >= self.end {
+                if goal_idx < self.start || goal_idx > self.end {
                     Err(io::Error::new(
                         io::ErrorKind::InvalidInput,
                         "invalid seek to a negative or overflowing position",
-- 
2.43.0


From b105bf1a95807a6583bd59cbc824a37827fa9b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:20 +0000
Subject: [PATCH 10/42] fix: hashes from an index could panic or name paths
 outside a store

---
 src/vocab/artifact_hash.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vocab/artifact_hash.rs b/src/vocab/artifact_hash.rs
index f8b1c79..44ed75d 100644
--- a/src/vocab/artifact_hash.rs
+++ b/src/vocab/artifact_hash.rs
@@ -8,9 +8,22 @@ pub struct ArtifactHash {
 
 impl ArtifactHash {
     pub fn from_hex(mode: &str, hex: &str) -> Result<ArtifactHash> {
+        // hashes come from package indexes, and are used to build paths on disk
+        if mode.is_empty()
+            || !mode
+                .bytes()
+                .all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_')
+        {
+            bail!("invalid hash algorithm name {mode:?}");
+        }
+        let raw_data = data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?;
+        // even the shortest digest that's ever used (MD5) is longer than this
+        if raw_data.len() < 4 {
+            bail!("{mode} hash is too short: {hex:?}");
+        }
         Ok(ArtifactHash {
             mode: mode.into(),
-            raw_data: data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?,
+            raw_data,
         })
     }
 
-- 
2.43.0


From e5b7e0cd73980cf629d2d51538ea79f6eb76e7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:43 +0000
Subject: [PATCH 11/42] fix: -v showed more than -vv

---
 src/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 08e413d..b20a2ed 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -182,8 +182,8 @@ pub fn init(args: &OutputArgs) {
         .saturating_sub(args.quiet.try_into().unwrap_or(i8::MAX));
 
     let global_level = match verbosity {
-        2.. => Level::DEBUG,
-        1 => Level::TRACE,
+        2.. => Level::TRACE,
+        1 => Level::DEBUG,
         0 => Level::INFO,
         -1 => Level::WARN,
         // https://github.com/rust-lang/rust/issues/67264
-- 
2.43.0


From 21aa24a0c4c87daa96ef8d5a154dafd66995599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:30 +0000
Subject: [PATCH 12/42] fix: sparse files in an sdist were silently left out

---
 src/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 7d6a689..439fb7a 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -334,7 +334,7 @@ pub fn unpack_tar_gz_carefully<T: Read + Seek, W: WriteTree>(
                 bail!("sdist entry {} has unsupported type {:?}", path, kind)
             }
             Directory => dest.mkdir(&path)?,
-            GNULongName | GNULongLink | GNUSparse | XGlobalHeader | XHeader => (),
+            GNULongName | GNULongLink | XGlobalHeader | XHeader => (),
             _ => {
                 dest.write_file(&path, &mut entry, is_executable)?;
             }
-- 
2.43.0


From 74d9c982c534632cc7a84e54bfaf24bc522e0609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:22 +0000
Subject: [PATCH 13/42] fix: archives that list a directory after its contents,
 twice, or as . did not unpack

---
 src/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 439fb7a..6c47272 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -230,7 +230,8 @@ impl WriteTreeFS {
 impl WriteTree for WriteTreeFS {
     fn mkdir(&mut self, path: &NicePathBuf) -> Result<()> {
         context!("Creating {path}/");
-        Ok(fs::create_dir(self.full_path(path)?)?)
+        // archives may list a directory after its contents, twice, or as "."
+        Ok(fs::create_dir_all(self.full_path(path)?)?)
     }
 
     fn write_file(
-- 
2.43.0


From 60cc2325dc92ef0856a7ce60dac7e4ea627d5bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 14/42] fix: entry points with a one-letter module or object
 were refused, and entries outside any section accepted

---
 src/vocab/entry_points.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index ebea403..b6c6059 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -21,9 +21,9 @@ static ENTRY_LINE: Lazy<Regex> = Lazy::new(|| {
           ^
           (?P<name> .*?)
           \s* = \s*
-          (?P<module> [a-zA-Z_][a-zA-Z0-9_.]+)
+          (?P<module> [a-zA-Z_][a-zA-Z0-9_.]*)
           \s*
-          (: \s* (?P<object> [a-zA-Z_][a-zA-Z0-9_.]+))?
+          (: \s* (?P<object> [a-zA-Z_][a-zA-Z0-9_.]*))?
           \s*
           # 'Consumers should support parsing [extras] ... but may then ignore them'
           (\[ .* \])?
@@ -43,7 +43,7 @@ pub struct Entrypoint {
 }
 
 pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoint>>> {
-    let mut current_section_name = Some(String::new());
+    let mut current_section_name = None;
     let mut current_entries = Vec::<Entrypoint>::new();
     let mut result = HashMap::<String, Vec<Entrypoint>>::new();
     for line in contents.split('\n') {
-- 
2.43.0


From 7f76d14d1afad35d3d3c7f4ab58fcd16b6961596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 15/42] fix: a repeated entry point section replaced the
 earlier one

---
 src/vocab/entry_points.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index b6c6059..4a1513d 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -53,10 +53,12 @@ pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoi
         } else if let Some(captures) = HEADER_LINE.captures(line.as_ref()) {
             let section_name = captures.name("name").unwrap().as_str();
             if !current_entries.is_empty() {
-                result.insert(current_section_name.unwrap(), current_entries);
+                result
+                    .entry(current_section_name.unwrap())
+                    .or_default()
+                    .append(&mut current_entries);
             }
             current_section_name = Some(section_name.into());
-            current_entries = Vec::new();
         } else if let Some(captures) = ENTRY_LINE.captures(line.as_ref()) {
             if current_section_name.is_none() {
                 bail!("missing section name in entry_points.txt");
@@ -74,7 +76,10 @@ pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoi
         }
     }
     if !current_entries.is_empty() {
-        result.insert(current_section_name.unwrap(), current_entries);
+        result
+            .entry(current_section_name.unwrap())
+            .or_default()
+            .append(&mut current_entries);
     }
     Ok(result)
 }
-- 
2.43.0


From 2723a1c83352646a760dbc7b09a81645ed7638cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 16/42] fix: entry point names kept leading whitespace and
 could be empty or contain '='

---
 src/vocab/entry_points.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index 4a1513d..816a928 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -19,7 +19,7 @@ static ENTRY_LINE: Lazy<Regex> = Lazy::new(|| {
     Regex::new(
         r"(?x)
           ^
-          (?P<name> .*?)
+          \s* (?P<name> [^\s=] [^=]*?)
           \s* = \s*
           (?P<module> [a-zA-Z_][a-zA-Z0-9_.]*)
           \s*
-- 
2.43.0


From 26c27062c295de5b3b6eb26920c697128151f066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 17/42] fix: an entry point name with path separators was not
 installed as a script

---
 src/vocab/artifact_formats.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vocab/artifact_formats.rs b/src/vocab/artifact_formats.rs
index 3af87a6..1c7132a 100644
--- a/src/vocab/artifact_formats.rs
+++ b/src/vocab/artifact_formats.rs
@@ -483,8 +483,11 @@ impl Wheel {
                 if let Some(script_entrypoints) = entry_points.get(name) {
                     for entrypoint in script_entrypoints {
                         let body = script_for_entrypoint(entrypoint, script_type);
-                        let name =
-                            format!("{}/scripts/{}", vitals.data, entrypoint.name);
+                        let nice: NicePathBuf = entrypoint.name.as_str().try_into()?;
+                        if nice.len() != 1 {
+                            bail!("invalid script name {:?}", entrypoint.name);
+                        }
+                        let name = format!("{}/scripts/{nice}", vitals.data);
                         transformer.write_file(
                             &name.try_into()?,
                             &mut &body[..],
-- 
2.43.0


From 91242140f5939a3cb62f1076c73bbfacd7082548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 18/42] fix: a script's first line was glued to the launcher's
 last, a syntax error

---
 src/trampolines/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trampolines/mod.rs b/src/trampolines/mod.rs
index f9f4f6e..b9ddd29 100644
--- a/src/trampolines/mod.rs
+++ b/src/trampolines/mod.rs
@@ -61,6 +61,8 @@ impl TrampolineMaker {
             ScriptType::GUI => UNIX_TEMPLATE.replace("POSY_PYTHON", "POSY_PYTHONW"),
         };
         let mut out = prefix.into_bytes();
+        // indoc! drops the template's final newline
+        out.push(b'\n');
         out.extend_from_slice(script);
         out
     }
-- 
2.43.0


From 64c424030cb1c4858ed429da839913f480db7f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 19/42] fix: a tag that only starts like a legacy manylinux tag
 was expanded

---
 src/platform_tags/expand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform_tags/expand.rs b/src/platform_tags/expand.rs
index bbcba6d..2e28216 100644
--- a/src/platform_tags/expand.rs
+++ b/src/platform_tags/expand.rs
@@ -7,7 +7,7 @@ static LINUX_RE: Lazy<Regex> = Lazy::new(|| {
 });
 
 static LEGACY_MANYLINUX_RE: Lazy<Regex> =
-    Lazy::new(|| Regex::new(r"^manylinux(2014|2010|1)_([a-zA-Z0-9_]*)").unwrap());
+    Lazy::new(|| Regex::new(r"^manylinux(2014|2010|1)_([a-zA-Z0-9_]*)$").unwrap());
 
 static MACOSX_RE: Lazy<Regex> =
     Lazy::new(|| Regex::new(r"^macosx_([0-9]+)_([0-9]+)_([a-zA-Z0-9_]*)$").unwrap());
-- 
2.43.0


From 6fc0e6e04840336809fa89606951577a512c79ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 20/42] fix: platform tags with huge version numbers panicked
 or expanded without end

---
 src/platform_tags/expand.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/platform_tags/expand.rs b/src/platform_tags/expand.rs
index 2e28216..affd4c3 100644
--- a/src/platform_tags/expand.rs
+++ b/src/platform_tags/expand.rs
@@ -2,15 +2,18 @@ use std::borrow::Cow;
 
 use crate::prelude::*;
 
+// Longer version numbers are not recognized: there is no such platform, and expanding
+// them would overflow or produce as many tags as the number says.
 static LINUX_RE: Lazy<Regex> = Lazy::new(|| {
-    Regex::new(r"^(many|musl)linux_([0-9]+)_([0-9]+)_([a-zA-Z0-9_]*)$").unwrap()
+    Regex::new(r"^(many|musl)linux_([0-9]{1,4})_([0-9]{1,4})_([a-zA-Z0-9_]*)$").unwrap()
 });
 
 static LEGACY_MANYLINUX_RE: Lazy<Regex> =
     Lazy::new(|| Regex::new(r"^manylinux(2014|2010|1)_([a-zA-Z0-9_]*)$").unwrap());
 
-static MACOSX_RE: Lazy<Regex> =
-    Lazy::new(|| Regex::new(r"^macosx_([0-9]+)_([0-9]+)_([a-zA-Z0-9_]*)$").unwrap());
+static MACOSX_RE: Lazy<Regex> = Lazy::new(|| {
+    Regex::new(r"^macosx_([0-9]{1,4})_([0-9]{1,4})_([a-zA-Z0-9_]*)$").unwrap()
+});
 
 // Given a platform tag like "manylinux_2_17_x86_64" or "win32", returns a vector of
 // other platform tags that are guaranteed to be supported on any machine that supports
-- 
2.43.0


From b07665a36e369bb64396e7eb9aaae5429c87d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 21/42] fix: build numbers beyond u32 were silently dropped
 from artifact names

---
 src/vocab/artifact_name.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vocab/artifact_name.rs b/src/vocab/artifact_name.rs
index b4bfa15..f7eb073 100644
--- a/src/vocab/artifact_name.rs
+++ b/src/vocab/artifact_name.rs
@@ -154,7 +154,10 @@ fn generic_parse(
         }
         // unwrap safe because: the regex cannot fail
         let captures = BUILD_TAG_SPLIT.captures(build_tag).unwrap();
-        build_number = captures.get(1).and_then(|m| m.as_str().parse().ok());
+        build_number = match captures.get(1).unwrap().as_str() {
+            "" => None,
+            digits => Some(digits.parse()?),
+        };
         // unwrap safe because: this group will always match something, even
         // if only the empty string
         build_name = captures.get(2).unwrap().as_str().into();
-- 
2.43.0


From 554ab92f11d84dcc9c93b76ea4f2edbc1449e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:54 +0000
Subject: [PATCH 22/42] fix: parsing a marker took time exponential in its
 nesting

---
 src/vocab/reqparse.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/vocab/reqparse.rs b/src/vocab/reqparse.rs
index bd19abb..3646f87 100644
--- a/src/vocab/reqparse.rs
+++ b/src/vocab/reqparse.rs
@@ -131,14 +131,22 @@ peg::parser! {
               }
 
         rule marker_and(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = lhs:marker_expr(parse_extra) _ "and" _ rhs:marker_and(parse_extra)
-                 { marker::EnvMarkerExpr::And(Box::new(lhs), Box::new(rhs)) }
-              / marker_expr(parse_extra)
+            = lhs:marker_expr(parse_extra) rhs:(_ "and" _ m:marker_and(parse_extra) { m })?
+              {
+                  match rhs {
+                      Some(rhs) => marker::EnvMarkerExpr::And(Box::new(lhs), Box::new(rhs)),
+                      None => lhs,
+                  }
+              }
 
         rule marker_or(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = lhs:marker_and(parse_extra) _ "or" _ rhs:marker_or(parse_extra)
-                 { marker::EnvMarkerExpr::Or(Box::new(lhs), Box::new(rhs)) }
-              / marker_and(parse_extra)
+            = lhs:marker_and(parse_extra) rhs:(_ "or" _ m:marker_or(parse_extra) { m })?
+              {
+                  match rhs {
+                      Some(rhs) => marker::EnvMarkerExpr::Or(Box::new(lhs), Box::new(rhs)),
+                      None => lhs,
+                  }
+              }
 
         pub rule marker(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
             = marker_or(parse_extra)
-- 
2.43.0


From 132e1a376674e2facffcf0a693b40b6cbec0f7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 23/42] fix: extras that look like versions were compared as
 versions in markers

---
 src/vocab/requirement.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/vocab/requirement.rs b/src/vocab/requirement.rs
index be8563e..5ff8df5 100644
--- a/src/vocab/requirement.rs
+++ b/src/vocab/requirement.rs
@@ -124,17 +124,16 @@ pub mod marker {
                     // variable: always normalize both sides (see PEP 685)
                     let lhs_holder: String;
                     let rhs_holder: String;
-                    if lhs.is_extra() {
-                        if let Ok(extra) = Extra::try_from(rhs_val) {
-                            rhs_holder = extra.normalized().to_string();
-                            rhs_val = rhs_holder.as_str();
-                        }
-                    }
-                    if rhs.is_extra() {
+                    let is_extra = lhs.is_extra() || rhs.is_extra();
+                    if is_extra {
                         if let Ok(extra) = Extra::try_from(lhs_val) {
                             lhs_holder = extra.normalized().to_string();
                             lhs_val = lhs_holder.as_str();
                         }
+                        if let Ok(extra) = Extra::try_from(rhs_val) {
+                            rhs_holder = extra.normalized().to_string();
+                            rhs_val = rhs_holder.as_str();
+                        }
                     }
                     match op {
                         Op::In => rhs_val.contains(lhs_val),
@@ -142,12 +141,15 @@ pub mod marker {
                         Op::Compare(op) => {
                             // If both sides can be parsed as versions (or the RHS can
                             // be parsed as a wildcard with a wildcard-accepting op),
-                            // then we do a version comparison
-                            if let Ok(lhs_ver) = lhs_val.parse() {
-                                if let Ok(rhs_ranges) = op.to_ranges(rhs_val) {
-                                    return Ok(rhs_ranges
-                                        .into_iter()
-                                        .any(|r| r.contains(&lhs_ver)));
+                            // then we do a version comparison. (But extras are names,
+                            // even the ones that look like versions.)
+                            if !is_extra {
+                                if let Ok(lhs_ver) = lhs_val.parse() {
+                                    if let Ok(rhs_ranges) = op.to_ranges(rhs_val) {
+                                        return Ok(rhs_ranges
+                                            .into_iter()
+                                            .any(|r| r.contains(&lhs_ver)));
+                                    }
                                 }
                             }
                             use CompareOp::*;
-- 
2.43.0


From cf2ffa56052334df57aa168e88ad800fcdbd3eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 24/42] fix: metadata with a pre-release of an unsupported
 major version was accepted

---
 src/vocab/core_metadata.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vocab/core_metadata.rs b/src/vocab/core_metadata.rs
index 53f2204..0c9d5c7 100644
--- a/src/vocab/core_metadata.rs
+++ b/src/vocab/core_metadata.rs
@@ -37,9 +37,6 @@ fn parse_common(input: &[u8]) -> Result<(PackageName, Version, RFC822ish)> {
     let input = String::from_utf8_lossy(input);
     let mut parsed = RFC822ish::parse(&input)?;
 
-    static NEXT_MAJOR_METADATA_VERSION: Lazy<Version> =
-        Lazy::new(|| "3".try_into().unwrap());
-
     // Quoth https://packaging.python.org/specifications/core-metadata:
     // "Automated tools consuming metadata SHOULD warn if metadata_version
     // is greater than the highest version they support, and MUST fail if
@@ -58,7 +55,9 @@ fn parse_common(input: &[u8]) -> Result<(PackageName, Version, RFC822ish)> {
     // much-discussed beforehand that if a tool's authors don't know
     // about it it's because the tool is abandoned anyway.
     let metadata_version: Version = parsed.take_the("Metadata-Version")?.try_into()?;
-    if metadata_version >= *NEXT_MAJOR_METADATA_VERSION {
+    // (Don't compare this as a version: 3.dev0 has major version 3, but is less than 3.)
+    let next_major = 3;
+    if metadata_version.0.epoch > 0 || metadata_version.0.release[0] >= next_major {
         bail!("unsupported Metadata-Version {}", metadata_version);
     }
 
-- 
2.43.0


From 68ea049fb7fca5a754fd6225c7a58fd169695fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:29 +0000
Subject: [PATCH 25/42] fix: a server answering with the wrong range made lazy
 reads panic

---
 src/package_db/http/lazy_remote_file.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/package_db/http/lazy_remote_file.rs b/src/package_db/http/lazy_remote_file.rs
index dab8655..201a6fc 100644
--- a/src/package_db/http/lazy_remote_file.rs
+++ b/src/package_db/http/lazy_remote_file.rs
@@ -229,12 +229,16 @@ impl Read for LazyRemoteFile {
         let fetch_start = fetch_start.clamp(gap_start, gap_end);
         let fetch_end = fetch_end.clamp(gap_start, gap_end);
         fix_err(self.load_range(fetch_start, fetch_end - fetch_start))?;
-        // now it's definitely in cache
+        // now it's in cache, if the server sent us what we asked for
         if let Some(len) = copy_loaded(self.seek_pos, &self.loaded, buf) {
             self.seek_pos = self.seek_pos.saturating_add(fix_err(len.try_into())?);
             return Ok(len);
         }
-        unreachable!("and you may ask yourself, well, how did I get here?")
+        fix_err(Err(eyre!(
+            "server didn't send the range we asked for (offset {} of {})",
+            self.seek_pos,
+            self.url
+        )))
     }
 }
 
-- 
2.43.0


From e815ea5485c4869726f9dcae64fc8cc345907268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:01 +0000
Subject: [PATCH 26/42] fix: an answer that must not be stored failed when
 nothing was cached

---
 src/kvstore.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kvstore.rs b/src/kvstore.rs
index 21b1c89..5631673 100644
--- a/src/kvstore.rs
+++ b/src/kvstore.rs
@@ -262,8 +262,11 @@ impl KVFileLock {
     // file we got matches the one on disk before returning? might be necessary for any
     // kind of GC anyway)
     pub fn remove(self) -> Result<()> {
-        fs::remove_file(self.path)?;
-        Ok(())
+        match fs::remove_file(self.path) {
+            // the entry might never have existed
+            Err(err) if err.kind() != std::io::ErrorKind::NotFound => Err(err)?,
+            _ => Ok(()),
+        }
     }
 }
 
-- 
2.43.0


From 448786262ae9023c14831501ef642780b9e0f4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 27/42] fix: an answer that was not cached was handed over at
 its end

---
 src/package_db/http/http.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 697c56a..2d2a468 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -65,6 +65,7 @@ impl ReadPlusMaybeSeek {
             ReadPlusMaybeSeek::CannotSeek(mut inner) => {
                 let mut tmp = tempfile::tempfile()?;
                 std::io::copy(&mut inner, &mut tmp)?;
+                tmp.rewind()?;
                 Box::new(tmp)
             }
         })
-- 
2.43.0


From 00c18e7c3736ebce3ebe274c6de05260a6a7ecee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 28/42] fix: a <base> without href hid the one that counts

---
 src/package_db/simple_api/html.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/package_db/simple_api/html.rs b/src/package_db/simple_api/html.rs
index 2c9bf42..d8d2f27 100644
--- a/src/package_db/simple_api/html.rs
+++ b/src/package_db/simple_api/html.rs
@@ -156,10 +156,10 @@ impl TreeSink for Sink {
         }
 
         if name.expanded() == BASE_TAG {
-            // HTML spec says that only the first <base> is respected
+            // HTML spec says that only the first <base> with an href is respected
             if !self.changed_base {
-                self.changed_base = true;
                 if let Some(new_base_str) = get_attr(&HREF_ATTR, &attrs) {
+                    self.changed_base = true;
                     if let Ok(new_base) = self.base.join(new_base_str) {
                         self.base = new_base;
                     }
-- 
2.43.0


From 3efe3e16c887883e595ba1292f90f7d93eb59dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 29/42] fix: links with %-encoded file names (local versions)
 were ignored

---
 src/package_db/simple_api/html.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/package_db/simple_api/html.rs b/src/package_db/simple_api/html.rs
index d8d2f27..020f60e 100644
--- a/src/package_db/simple_api/html.rs
+++ b/src/package_db/simple_api/html.rs
@@ -76,6 +76,28 @@ fn parse_hash(s: &str) -> Option<ArtifactHash> {
     }
 }
 
+// In URLs filenames can be %-encoded, e.g. local versions as 'foo-1.0%2Blocal...'
+fn percent_decode(s: &str) -> Option<String> {
+    let mut decoded = Vec::new();
+    let mut rest = s.as_bytes();
+    while let Some((&b, tail)) = rest.split_first() {
+        rest = tail;
+        let escape = if b == b'%' && rest.len() >= 2 {
+            data_encoding::HEXLOWER_PERMISSIVE.decode(&rest[..2]).ok()
+        } else {
+            None
+        };
+        match escape {
+            Some(bytes) => {
+                decoded.extend(bytes);
+                rest = &rest[2..];
+            }
+            None => decoded.push(b),
+        }
+    }
+    String::from_utf8(decoded).ok()
+}
+
 impl Sink {
     fn try_parse_link(
         &self,
@@ -83,7 +105,8 @@ impl Sink {
         attrs: &Vec<Attribute>,
     ) -> Option<Vec<ArtifactInfo>> {
         let url = self.base.join(url_str).ok()?;
-        let name: ArtifactName = url.path_segments()?.next_back()?.try_into().ok()?;
+        let filename = percent_decode(url.path_segments()?.next_back()?)?;
+        let name: ArtifactName = filename.as_str().try_into().ok()?;
         let names = name.split_multiplatform_pybis();
         // We found a valid link
         let hash = url.fragment().and_then(parse_hash);
-- 
2.43.0


From dda4c88819fd867d53f49c90109b4c6efe668932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 30/42] fix: only the last of several requirements on a package
 counted

---
 src/resolve.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 60f687e..6c7b50d 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -742,6 +742,11 @@ impl<'a> PubgrubState<'a> {
                 let pkg = ResPkg::Package(req.name.clone(), maybe_extra);
                 let range = specifiers_to_pubgrub(&req.specifiers)?;
                 trace!("adding dependency: {} {}", pkg, range);
+                // the same package can be required several times
+                let range = match dc.get(&pkg) {
+                    Some(other) => other.intersection(&range),
+                    None => range,
+                };
                 dc.insert(pkg, range);
             }
         }
@@ -863,10 +868,13 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                             inner.as_given()
                         ))?;
                     }
-                    dc.insert(
-                        ResPkg::Package(name.clone(), None),
-                        Range::exact(version.clone()),
-                    );
+                    let base = ResPkg::Package(name.clone(), None);
+                    let exact = Range::exact(version.clone());
+                    let range = match dc.get(&base) {
+                        Some(other) => other.intersection(&exact),
+                        None => exact,
+                    };
+                    dc.insert(base, range);
                 }
 
                 trace!("<---- dependencies complete");
-- 
2.43.0


From f3c1b57433ed9f82124248e5c5c7f4aef51ffec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 31/42] fix: a version that contradicts or requires itself
 stopped the resolution

---
 src/resolve.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index 6c7b50d..699df68 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -877,6 +877,21 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                     dc.insert(base, range);
                 }
 
+                // pubgrub gives up completely when it sees one of these, but they only
+                // rule out this version (or are met already).
+                if let Some(range) = dc.remove(pkg) {
+                    if !range.contains(version) {
+                        warn!("{pkg} {version} requires another version of itself");
+                        return Ok(Dependencies::Unknown);
+                    }
+                }
+                if let Some((dependent, _)) =
+                    dc.iter().find(|(_, range)| *range == &Range::none())
+                {
+                    warn!("{pkg} {version}'s requirements on {dependent} are self-contradictory");
+                    return Ok(Dependencies::Unknown);
+                }
+
                 trace!("<---- dependencies complete");
                 Ok(Dependencies::Known(dc))
             }
-- 
2.43.0


From 10756ac75c70dd8b48f0d99077670b0c12e3a766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 32/42] fix: a version without the extra or for other Pythons
 stopped the resolution

---
 src/resolve.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 699df68..fc8df99 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -808,11 +808,12 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                         .requires_python
                         .satisfied_by(&self.python_full_version)?
                     {
-                        Err(eyre!(
+                        warn!(
                             "{} {}: bad requires-python, but pypi didn't tell us!",
                             name.as_given(),
                             version
-                        ))?;
+                        );
+                        continue;
                     }
                     trace!("<---- decision: {} {}", respkg.borrow(), version);
                     return Ok((respkg, Some(version.clone())));
@@ -862,11 +863,13 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
 
                 if let Some(inner) = extra {
                     if !metadata.extras.contains(inner) {
-                        Err(eyre!(
-                            "package {} has no extra [{}]",
+                        warn!(
+                            "{} {} has no extra [{}]",
                             name.as_given(),
+                            version,
                             inner.as_given()
-                        ))?;
+                        );
+                        return Ok(Dependencies::Unknown);
                     }
                     let base = ResPkg::Package(name.clone(), None);
                     let exact = Range::exact(version.clone());
-- 
2.43.0


From ece0b82b28b73075289be5195d82c6b03a9049c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 33/42] fix: one artifact with an invalid requires-python hid
 the whole package

---
 src/resolve.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index fc8df99..6a46c07 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -396,9 +396,16 @@ fn fetch_and_sort_versions<'a>(
             if let (Some(python_version), Some(requires_python)) =
                 (python_version, &ai.requires_python)
             {
-                let requires_python: Specifiers = requires_python.parse()?;
-                if !requires_python.satisfied_by(python_version)? {
-                    continue;
+                let compatible = requires_python
+                    .parse::<Specifiers>()
+                    .and_then(|specifiers| specifiers.satisfied_by(python_version));
+                match compatible {
+                    Ok(true) => (),
+                    Ok(false) => continue,
+                    Err(err) => {
+                        warn!("ignoring {}: bad requires-python: {}", ai.name, err);
+                        continue;
+                    }
                 }
             }
             // we found a valid artifact for this version. So this version is valid, and
-- 
2.43.0


From 27f3a062d1107ffa255d863bfffa8fe93767e85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 34/42] fix: versions were not tried in the order they had been
 sorted into

---
 src/resolve.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 6a46c07..be90c82 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -432,16 +432,6 @@ fn fetch_and_sort_versions<'a>(
         versions.sort_unstable_by_key(|v| std::cmp::Reverse(*v));
     }
 
-    // sort from highest to lowest
-    versions.sort_unstable_by_key(|v| {
-        (
-            // false sorts before true, so version_hint = v sorts first
-            version_hint != Some(v),
-            // and otherwise, high versions come before low versions
-            std::cmp::Reverse(*v),
-        )
-    });
-
     Ok(versions)
 }
 
-- 
2.43.0


From 19a69a7ebfce4c03e89ffdcd39ef41dfcc88ecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 35/42] fix: a brief that allows all pre-releases, or none,
 could not be loaded

---
 src/resolve.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index be90c82..c00ef66 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -5,7 +5,7 @@ use pubgrub::range::Range;
 use pubgrub::report::DerivationTree;
 use pubgrub::report::Reporter;
 use pubgrub::solver::{Dependencies, DependencyConstraints};
-use std::borrow::Borrow;
+use std::borrow::{Borrow, Cow};
 use std::cell::RefCell;
 
 use crate::package_db::{ArtifactInfo, PackageDB};
@@ -36,7 +36,9 @@ impl Default for AllowPre {
 #[serde(untagged)]
 enum AllowPreSerdeHelper<'a> {
     Some(HashSet<PackageName>),
-    Other(&'a str),
+    // not a plain &str, because that can't represent strings with escapes in them, or
+    // ones that come out of a reader
+    Other(Cow<'a, str>),
 }
 
 impl<'a> TryFrom<AllowPreSerdeHelper<'a>> for AllowPre {
@@ -60,7 +62,7 @@ impl<'a> From<AllowPre> for AllowPreSerdeHelper<'a> {
     fn from(value: AllowPre) -> Self {
         match value {
             AllowPre::Some(pkgs) => AllowPreSerdeHelper::Some(pkgs),
-            AllowPre::All => AllowPreSerdeHelper::Other(":all:"),
+            AllowPre::All => AllowPreSerdeHelper::Other(":all:".into()),
         }
     }
 }
@@ -82,7 +84,7 @@ pub struct Brief {
     pub python: PythonRequirement,
     // don't need python_constraints because we always install exactly one python
     pub requirements: Vec<UserRequirement>,
-    #[serde(skip_serializing_if = "allow_pre_is_empty")]
+    #[serde(default, skip_serializing_if = "allow_pre_is_empty")]
     pub allow_pre: AllowPre,
     // XX TODO
     //pub constraints: Vec<UserRequirement>,
-- 
2.43.0


From d2347fe58bc174e785a19755b9ef0b223f0ff76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 36/42] fix: specifiers without any restriction did not load
 back

---
 src/vocab/specifier.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 249cca0..26a5bd1 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -57,6 +57,11 @@ impl TryFrom<&str> for Specifiers {
     type Error = eyre::Report;
 
     fn try_from(input: &str) -> Result<Self, Self::Error> {
+        // No restrictions at all: that's how Display writes Specifiers::default(), and
+        // what packages mean by an empty Requires-Python
+        if input.trim().is_empty() {
+            return Ok(Specifiers::default());
+        }
         let specifiers_or_err = super::reqparse::versionspec(input);
         specifiers_or_err.wrap_err_with(|| {
             format!("failed to parse versions specifiers from {:?}", input)
-- 
2.43.0


From f1a5276f1cc3a0df0392fde04c069cf419722e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 37/42] fix: the least compatible of the pinned files was
 installed

---
 src/env.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 1403593..9c61d79 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -58,7 +58,8 @@ where
                 None
             })
             .collect::<Vec<_>>();
-        scored_candidates.sort_unstable_by_key(|(_, score)| *score);
+        // best first
+        scored_candidates.sort_by_key(|(_, score)| std::cmp::Reverse(*score));
         for (ai, _) in scored_candidates {
             if ai.hash.is_none() {
                 warn!("best scoring artifact {} has no hash", ai.name);
-- 
2.43.0


From 657e1c1056e80fec0f1195baedfa67e3f2624e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:51 +0000
Subject: [PATCH 38/42] fix: an sdist was installed whose hash the blueprint
 does not list

---
 src/env.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 9c61d79..1e6c014 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -184,7 +184,13 @@ impl EnvForest {
                         if let Some(sdist_ai) = db
                             .artifacts_for_version(&pin.name, &pin.version)?
                             .iter()
-                            .find(|ai| ai.is::<Sdist>())
+                            .find(|ai| {
+                                ai.is::<Sdist>()
+                                    && ai
+                                        .hash
+                                        .as_ref()
+                                        .map_or(false, |h| pin.hashes.contains(h))
+                            })
                         {
                             context!("using sdist from {}", sdist_ai.url);
                             let sdist_hash = sdist_ai.require_hash()?;
-- 
2.43.0


From 056dca43a0774df07cdd6cf9b6f12cf1aa4644d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:46 +0000
Subject: [PATCH 39/42] fix: an sdist that needs itself for being built was a
 deadlock

---
 src/env.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/env.rs b/src/env.rs
index 1e6c014..1958b0c 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -222,6 +222,12 @@ impl EnvForest {
                             } else {
                                 // couldn't find one already installed... try to
                                 // build one and install it
+                                //
+                                // Don't hold the lock while building, because the
+                                // build environment might need this same sdist. (It
+                                // can't have it, but that should be an error, not a
+                                // deadlock.)
+                                drop(handle);
                                 // unwrap is ok b/c we know we're passing an sdist
                                 // ai here
                                 let local_wheel = db
@@ -231,15 +237,19 @@ impl EnvForest {
                                         &wheel_platform,
                                     )
                                     .unwrap()?;
-                                let tmp = handle.tempdir()?;
-                                local_wheel.unpack(
-                                    &paths,
-                                    &trampoline_maker,
-                                    WriteTreeFS::new(&tmp),
-                                )?;
+                                let handle = self.store.lock(&sdist_hash)?;
                                 let wheel_root =
                                     handle.join(local_wheel.name().to_string());
-                                fs::rename(tmp.into_path(), &wheel_root)?;
+                                // someone else might have installed it in the mean time
+                                if !wheel_root.exists() {
+                                    let tmp = handle.tempdir()?;
+                                    local_wheel.unpack(
+                                        &paths,
+                                        &trampoline_maker,
+                                        WriteTreeFS::new(&tmp),
+                                    )?;
+                                    fs::rename(tmp.into_path(), &wheel_root)?;
+                                }
                                 (sdist_ai, wheel_root)
                             }
                         } else {
-- 
2.43.0


From 938090ef4bfc6ba359bf683b633f71df56d180a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:27 +0000
Subject: [PATCH 40/42] fix: a wheel that had to be built again for another
 platform could not be found

---
 src/package_db/build_wheel.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index da575b2..3523109 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -383,6 +383,9 @@ impl<'a> WheelBuilder<'a> {
                 if fs::rename(&wheel_path, &target_path).is_err() {
                     fs::copy(&wheel_path, &target_path)?;
                 }
+                // If we're asked again then it's because what we built didn't fit, so
+                // start over
+                fs::remove_dir_all(&build_wheel)?;
                 let opened = fs::File::open(target_path)?;
                 let wheel = Wheel::new(wheel_name, Box::new(opened))?;
                 return Ok(Pep517Succeeded::Wheel { wheel });
-- 
2.43.0


From 27201f458667371d16434f94aced164216fbb342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:50 +0000
Subject: [PATCH 41/42] fix: building for a pre-release Python found no Python

---
 src/package_db/build_wheel.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 3523109..dc6a9cd 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -202,6 +202,12 @@ impl<'a> WheelBuilder<'a> {
         like: Option<&Blueprint>,
         new_build_stack: &[&PackageName],
     ) -> Result<(Blueprint, Env)> {
+        let allow_pre = if self.target_python_version.is_prerelease() {
+            AllowPre::Some([self.target_python.clone()].into())
+        } else {
+            Default::default()
+        };
+
         // if we've already resolved a version of this environment, then we can skip
         // over the tricky stuff and just re-use the pybi + any matching wheels
         if like.is_some() {
@@ -214,7 +220,7 @@ impl<'a> WheelBuilder<'a> {
                 })
                 .unwrap(),
                 requirements: reqs.into(),
-                allow_pre: Default::default(),
+                allow_pre,
             }
             .resolve(
                 self.db,
@@ -280,15 +286,10 @@ impl<'a> WheelBuilder<'a> {
         let mut found_python = None;
 
         for candidate in candidate_pyreqs {
-            let allow_pre = if self.target_python_version.is_prerelease() {
-                AllowPre::Some([self.target_python.clone()].into())
-            } else {
-                Default::default()
-            };
             let brief = Brief {
                 python: candidate,
                 requirements: Vec::new(),
-                allow_pre,
+                allow_pre: allow_pre.clone(),
             };
             let result =
                 brief.resolve(self.db, &self.build_platforms, None, new_build_stack);
@@ -313,7 +314,7 @@ impl<'a> WheelBuilder<'a> {
         let brief = Brief {
             python: pyreq,
             requirements: reqs.into(),
-            allow_pre: Default::default(),
+            allow_pre,
         };
         let blueprint = brief.resolve(
             self.db,
-- 
2.43.0


From 9091eeafcacd0f5ddb3e74ca0eb8d042f4893f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:50 +0000
Subject: [PATCH 42/42] fix: a build for another Python reused the environment
 of an earlier one

---
 src/package_db/build_wheel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index dc6a9cd..1d6c732 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -442,7 +442,12 @@ impl<'a> WheelBuilder<'a> {
                 Err(e) => Err(e)?,
             };
 
-        let saved_blueprint_path = handle.join("saved-blueprint.json");
+        // this is only useful for the next step of building for the same python
+        let saved_blueprint_path = handle.join(format!(
+            "saved-blueprint-{}-{}.json",
+            self.target_python.normalized(),
+            self.target_python_version
+        ));
         let saved_blueprint: Option<Blueprint> = fs::File::open(&saved_blueprint_path)
             .ok()
             .and_then(|f| serde_json::from_reader(f).ok());
-- 
2.43.0

