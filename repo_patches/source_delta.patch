From 3d9b7c86ec58da7fd06898872403efa0b9e132f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:16 +0000
Subject: [PATCH 01/28] fix: never share a temporary file between two writers

The temporary name only had second resolution, so two processes (or two
writers in one process) writing the same target within a second wrote into
one file, and one of them failed when renaming.
---
 src/partial_file.rs | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/partial_file.rs b/src/partial_file.rs
index dd30cc2..33322ea 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -1,8 +1,8 @@
 use erreur::{Context, Result};
 use std::{
     ffi::OsString,
-    fs::{self, File},
-    io::{BufWriter, Write},
+    fs::{self, File, OpenOptions},
+    io::{self, BufWriter, Write},
     path::{Path, PathBuf},
     time::SystemTime,
 };
@@ -20,12 +20,13 @@ pub struct PartialFile {
 impl PartialFile {
     pub fn create(target_path: impl Into<PathBuf>) -> Result<Self> {
         let target_path: PathBuf = target_path.into();
-        let partial_path = generate_partial_file_name(&target_path)
-            .context("could not generate name for partial/temporary file")?;
-        let partial_file = File::create(&partial_path).with_context(|| {
+        let (partial_path, partial_file) = create_unique_temp(&target_path, |path| {
+            OpenOptions::new().write(true).create_new(true).open(path)
+        })
+        .with_context(|| {
             format!(
-                "could not create partial/temp file `{}`",
-                partial_path.display()
+                "could not create partial/temp file for `{}`",
+                target_path.display()
             )
         })?;
         let partial_file = BufWriter::new(partial_file);
@@ -98,7 +99,31 @@ impl Drop for PartialFile {
     }
 }
 
-fn generate_partial_file_name(path: &Path) -> Result<PathBuf> {
+/// Creates something new next to `path` under a temporary name.
+///
+/// Other processes (or other writers in this one) can be writing to the same
+/// target at the same time, or may have been killed while doing so and have left
+/// their temporary files behind. `create` thus must fail with `AlreadyExists`
+/// when the name it is given is already taken.
+pub(crate) fn create_unique_temp<T>(
+    path: &Path,
+    create: impl Fn(&Path) -> io::Result<T>,
+) -> Result<(PathBuf, T)> {
+    for attempt in 0.. {
+        let temp_path = generate_partial_file_name(path, attempt)
+            .context("could not generate name for partial/temporary file")?;
+        match create(&temp_path) {
+            Ok(created) => return Ok((temp_path, created)),
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => continue,
+            Err(e) => {
+                return Err(e).with_context(|| format!("could not create `{}`", temp_path.display()))
+            }
+        }
+    }
+    unreachable!("there always is another name to try")
+}
+
+fn generate_partial_file_name(path: &Path, attempt: u32) -> Result<PathBuf> {
     let target_file_name = path
         .file_name()
         .with_context(|| format!("cannot get file name from path `{}`", path.display()))?;
@@ -106,7 +131,7 @@ fn generate_partial_file_name(path: &Path) -> Result<PathBuf> {
         let timestamp = SystemTime::now()
             .duration_since(SystemTime::UNIX_EPOCH)
             .context("cannot get timestamp")?;
-        format!("artefacta-temp-{}", timestamp.as_secs())
+        format!("artefacta-temp-{}-{}-", timestamp.as_secs(), attempt)
     };
     let new_file_name = {
         let mut res = OsString::from("._");
-- 
2.43.0


From 8e2bdb9a4342a1eaad2711a1f0f568ed820c7009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 02/28] fix: copy files into a store atomically

fs::copy wrote directly to the final name: a killed or failing command left a
torn artefact, readers could see half of it, and adding a build with the local
store as remote store truncated it to nothing.
---
 src/partial_file.rs | 13 +++++++++++++
 src/storage/mod.rs  | 25 +++++++++++++++++++++++--
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/partial_file.rs b/src/partial_file.rs
index 33322ea..1bb445c 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -39,6 +39,19 @@ impl PartialFile {
         })
     }
 
+    /// Set permissions the finished file will have.
+    pub fn set_permissions(&self, permissions: fs::Permissions) -> Result<()> {
+        self.partial_file
+            .get_ref()
+            .set_permissions(permissions)
+            .with_context(|| {
+                format!(
+                    "cannot set permissions of `{}`",
+                    self.partial_path.display()
+                )
+            })
+    }
+
     pub fn finish(mut self) -> Result<File> {
         self.partial_file.flush().with_context(|| {
             format!(
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 9cd5d80..ac4842f 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -4,7 +4,7 @@ pub use std::{
     convert::{TryFrom, TryInto},
     fmt,
     fs::{self, read_dir},
-    io::{BufWriter, Write},
+    io::{self, BufWriter, Write},
     path::{Path, PathBuf},
     str::FromStr,
     sync::Arc,
@@ -302,7 +302,7 @@ impl Storage {
 
                 match file {
                     File::InFilesystem(entry) => {
-                        fs::copy(&entry.path, &new_path).with_context(|| {
+                        copy_file(Path::new(&entry.path), &new_path).with_context(|| {
                             format!("copy `{}` to `{}`", entry.path, new_path.display())
                         })?;
                     }
@@ -381,6 +381,27 @@ impl Storage {
     }
 }
 
+/// Like `fs::copy`, but the target only becomes visible once it is complete.
+fn copy_file(source: &Path, target: &Path) -> Result<()> {
+    let mut source_file =
+        fs::File::open(source).with_context(|| format!("open `{}`", source.display()))?;
+    let permissions = source_file
+        .metadata()
+        .with_context(|| format!("read metadata of `{}`", source.display()))?
+        .permissions();
+
+    let mut target_file = PartialFile::create(target)
+        .with_context(|| format!("create `{}`", target.display()))?;
+    io::copy(&mut source_file, &mut target_file).context("copy content of file")?;
+    target_file
+        .set_permissions(permissions)
+        .context("copy permissions of file")?;
+    target_file
+        .finish()
+        .context("finish writing to new file")?;
+    Ok(())
+}
+
 #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub enum File {
     InFilesystem(Entry),
-- 
2.43.0


From 9bd99025d4f8fdff9090190799273247b7a81d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 03/28] fix: PartialFile::finish must not fail after it has
 published the file

---
 src/partial_file.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/partial_file.rs b/src/partial_file.rs
index 1bb445c..9f48b2c 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -59,6 +59,14 @@ impl PartialFile {
                 self.partial_path.display()
             )
         })?;
+        // Opened under its temporary name so that nothing can fail anymore once the
+        // file is visible under its final name.
+        let finished_file = File::open(&self.partial_path).with_context(|| {
+            format!(
+                "cannot open partial file `{}`",
+                self.partial_path.display()
+            )
+        })?;
         fs::rename(&self.partial_path, &self.target_path).with_context(|| {
             format!(
                 "cannot finish partial file `{}`, renaming it to `{}` failed",
@@ -67,8 +75,7 @@ impl PartialFile {
             )
         })?;
         self.finished = true;
-        File::open(&self.target_path)
-            .with_context(|| format!("cannot open finished file `{}`", self.target_path.display()))
+        Ok(finished_file)
     }
 }
 
-- 
2.43.0


From 19e031337b59df2809f5f35a600d51eccda1a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 04/28] fix: install replaces `current` in one step, whatever
 it was before

Removing the old symlink before creating the new one left no installed version
at all when the process was killed in between, and could not replace a dangling
symlink. A `current` pointing to a build that is gone was reported as already
installed; one pointing to an unknown build made every install fail.
---
 src/index.rs |  5 ----
 src/lib.rs   | 67 +++++++++++++++++++++++++++++-----------------------
 2 files changed, 37 insertions(+), 35 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 645752d..9005fd9 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -217,11 +217,6 @@ impl Index {
     /// Upgrade from one version to the next
     pub async fn upgrade_to_build(&mut self, from: Version, to: Version) -> Result<Entry> {
         log::debug!("searching for upgrade path from `{}` to `{}`", from, to);
-        ensure!(
-            self.patch_graph.has_build(from.clone()),
-            "build `{:?}` unknown",
-            from
-        );
         ensure!(
             self.patch_graph.has_build(to.clone()),
             "build `{:?}` unknown",
diff --git a/src/lib.rs b/src/lib.rs
index ff2c321..bab5c1f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -39,50 +39,57 @@ pub async fn install(
     target_version: Version,
     current: &Path,
 ) -> Result<()> {
-    let target_build = match fs::read_link(&current) {
-        Ok(curent_path) => {
-            let current_version = paths::build_version_from_path(&curent_path)?;
+    let current_version = match fs::read_link(&current) {
+        Ok(current_path) => {
+            let version = paths::build_version_from_path(&current_path);
             log::debug!(
-                "identified version `{}` from path `{}`",
-                current_version,
-                curent_path.display()
+                "identified version `{:?}` from path `{}`",
+                version,
+                current_path.display()
             );
-
-            if current_version == target_version {
-                log::info!("version `{}` already installed", target_version);
-                return Ok(());
-            }
-
-            index
-                .upgrade_to_build(current_version, target_version.clone())
-                .await
-                .context("get build")?
+            version.ok()
         }
         Err(e) => {
             log::debug!("could not read `current` symlink: {}", e);
-            index
-                .get_build(target_version.clone())
-                .await
-                .context("get build")?
+            None
         }
     };
 
+    let target_build = match current_version {
+        Some(current_version) if current_version != target_version => index
+            .upgrade_to_build(current_version, target_version.clone())
+            .await
+            .context("get build")?,
+        _ => index
+            .get_build(target_version.clone())
+            .await
+            .context("get build")?,
+    };
+
+    if matches!(fs::read_link(&current), Ok(path) if path == Path::new(&target_build.path)) {
+        log::info!("version `{}` already installed", target_version);
+        return Ok(());
+    }
+
     #[cfg(unix)]
     use std::os::unix::fs::symlink;
     #[cfg(windows)]
     use std::os::windows::fs::symlink_file as symlink;
 
-    if current.exists() {
-        fs::remove_file(&current).context("clear old `current` symlink")?;
+    // Replace the symlink in one step so that there always is a `current` version.
+    let (new_link, ()) =
+        partial_file::create_unique_temp(current, |path| symlink(&target_build.path, path))
+            .with_context(|| {
+                format!(
+                    "create symlink pointing at new build: {} to {}",
+                    target_build.path,
+                    current.display()
+                )
+            })?;
+    if let Err(e) = fs::rename(&new_link, current) {
+        let _ = fs::remove_file(&new_link);
+        return Err(e).with_context(|| format!("replace `{}` symlink", current.display()));
     }
-
-    symlink(&target_build.path, &current).with_context(|| {
-        format!(
-            "create symlink pointing at new build: {} to {}",
-            target_build.path,
-            current.display()
-        )
-    })?;
     log::info!(
         "successfully installed `{}` as `{}`",
         target_version,
-- 
2.43.0


From d21133ad56ed1c3c3d2bcbbcbc27eb8bec55e61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 05/28] fix: listing a store only looks at regular files

A dangling `current`, a file name that is not UTF-8 or a temporary file of
another process vanishing at the wrong moment made every command fail, and
directories named like artefacts were taken for artefacts.
---
 src/storage/mod.rs | 55 ++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index ac4842f..fe6f158 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -134,29 +134,42 @@ impl FromStr for Storage {
 impl Storage {
     pub async fn list_files(&self) -> Result<Vec<Entry>> {
         match self.inner.as_ref() {
-            InnerStorage::Filesystem(path) => Ok(read_dir(&path)
-                .with_context(|| format!("could not read directory `{}`", path.display()))?
-                .map(|entry| -> Result<_> {
+            InnerStorage::Filesystem(root) => {
+                let mut files = Vec::new();
+                for entry in read_dir(&root)
+                    .with_context(|| format!("could not read directory `{}`", root.display()))?
+                {
                     let entry = entry.context("could not read file entry")?;
                     let path = entry.path();
-                    let path = path.canonicalize().with_context(|| {
-                        format!("cannot canonicalize path `{}`", path.display())
-                    })?;
-                    let metadata = entry.metadata().with_context(|| {
-                        format!("could not read metadata of `{}`", path.display())
-                    })?;
-
-                    Ok((metadata, path_as_string(path)?))
-                })
-                .collect::<Result<Vec<_>>>()?
-                .into_iter()
-                .filter(|(metadata, _)| !metadata.file_type().is_symlink())
-                .map(|(metadata, path)| Entry {
-                    storage: self.clone(),
-                    path,
-                    size: metadata.len(),
-                })
-                .collect::<Vec<_>>()),
+                    let metadata = match entry.metadata() {
+                        // Other processes might be done with their temporary files.
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
+                        metadata => metadata.with_context(|| {
+                            format!("could not read metadata of `{}`", path.display())
+                        })?,
+                    };
+                    // Neither directories nor symlinks (like `current`, which might
+                    // point nowhere) are artefacts.
+                    if !metadata.file_type().is_file() {
+                        continue;
+                    }
+                    let path = match path.canonicalize() {
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
+                        path => path.with_context(|| {
+                            format!("cannot canonicalize path `{}`", entry.path().display())
+                        })?,
+                    };
+                    match path_as_string(path) {
+                        Ok(path) => files.push(Entry {
+                            storage: self.clone(),
+                            path,
+                            size: metadata.len(),
+                        }),
+                        Err(e) => log::debug!("ignoring file that can't be an artefact: {}", e),
+                    }
+                }
+                Ok(files)
+            }
             InnerStorage::S3(bucket) => {
                 use rusoto_s3::{ListObjectsV2Request, S3Client, S3};
 
-- 
2.43.0


From 9f83d8d7081943fe2d8f2c052241a6439ab9ad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 06/28] fix: apply patches in the order of the upgrade path

They were sorted by name, so that upgrading 9 -> 10 -> 11 started with the last
patch and downloaded full builds on the way.
---
 src/index/graph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index 555877a..89b4683 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -194,7 +194,7 @@ impl PatchGraph {
             |_| 0,
         )
         .with_context(|| format!("no A& solution for patch from `{:?}` to `{:?}`", from, to))?;
-        let mut path: Vec<_> = steps
+        let path: Vec<_> = steps
             .windows(2)
             .map(|x| {
                 let from = self.graph[x[0]].version.clone();
@@ -202,7 +202,6 @@ impl PatchGraph {
                 Patch::new(from, to)
             })
             .collect();
-        path.sort();
 
         Ok((cost, path))
     }
-- 
2.43.0


From fe73a73d9a4810b0f2ea9c7af1ff731c2ebfbde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 07/28] fix: continue an upgrade from the last cached build

A build that was cached further down the patch chain (even the target itself)
was fetched and built again when an earlier one was missing.
---
 src/index.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 9005fd9..ac268dd 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -230,10 +230,12 @@ impl Index {
         {
             UpgradePath::ApplyPatches(patches) => {
                 log::debug!("found upgrade path via patches: {:?}", patches);
-                let needed_patches = patches
-                    .into_iter()
-                    .skip_while(|patch| self.patch_graph.has_local_build(patch.to.clone()))
-                    .collect::<Vec<Patch>>();
+                // Start from the last build on the way that is already here.
+                let already_done = patches
+                    .iter()
+                    .rposition(|patch| self.patch_graph.has_local_build(patch.to.clone()))
+                    .map_or(0, |last_cached| last_cached + 1);
+                let needed_patches = &patches[already_done..];
                 log::debug!(
                     "using already existing local builds, we need to fetch: {:?}",
                     needed_patches
@@ -249,7 +251,7 @@ impl Index {
                     Ok(())
                 }
 
-                match apply_patches(self, &needed_patches).await {
+                match apply_patches(self, needed_patches).await {
                     Ok(_) => log::debug!("successfully applied all patches to get to final build."),
                     e => {
                         log::warn!("failed to get build using patches, will use direct build.");
-- 
2.43.0


From 992b471b75a556a8edff0416295f3a33994e0c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 08/28] fix: only strip one suffix from artefact file names

The build `1.0.patch.tar.zst` was listed as version `1.0` and `add` stored it
as such.
---
 src/paths.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index 71c7fc0..6d76913 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -18,10 +18,12 @@ pub fn file_name(path: impl AsRef<Path>) -> Result<String> {
         .with_context(|| format!("no file stem for `{:?}`", path))?;
     let name = path_as_string(file_name)?;
 
-    // get rid of pesky .tar suffixes
-    let name = name.trim_end_matches(".tar");
-    // get rid of pesky .patch suffixes
-    let name = name.trim_end_matches(".patch");
+    // get rid of the one pesky .tar or .patch suffix (what's left might end in
+    // something similar, but that's part of the version)
+    let name = name
+        .strip_suffix(".tar")
+        .or_else(|| name.strip_suffix(".patch"))
+        .unwrap_or(&name);
 
     Ok(name.to_string())
 }
-- 
2.43.0


From 3fa172ff0d51e20fda70791c98d9725aee11062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 09/28] fix: reject versions that can't be part of a file name

`add-package ../x` wrote outside of the store, and patch names with versions
starting or ending with a dash were parsed as other versions.
---
 src/index/version.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/index/version.rs b/src/index/version.rs
index 28fdae8..b1a559c 100644
--- a/src/index/version.rs
+++ b/src/index/version.rs
@@ -28,6 +28,9 @@ impl fmt::Display for Version {
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum InvalidVersion {
     ThreeDashes,
+    OuterDash,
+    Empty,
+    ForbiddenCharacter,
 }
 
 impl StdError for InvalidVersion {}
@@ -39,6 +42,17 @@ impl fmt::Display for InvalidVersion {
                 f,
                 "Invalid version format: `---` must not appear in version"
             ),
+            InvalidVersion::OuterDash => write!(
+                f,
+                "Invalid version format: version must not start or end with `-`"
+            ),
+            InvalidVersion::Empty => {
+                write!(f, "Invalid version format: version must not be empty")
+            }
+            InvalidVersion::ForbiddenCharacter => write!(
+                f,
+                "Invalid version format: `/` and NUL must not appear in version"
+            ),
         }
     }
 }
@@ -50,6 +64,17 @@ impl FromStr for Version {
         if s.contains("---") {
             return Err(InvalidVersion::ThreeDashes);
         }
+        // `a---b` can only be taken apart if neither part has a dash next to it
+        if s.starts_with('-') || s.ends_with('-') {
+            return Err(InvalidVersion::OuterDash);
+        }
+        // versions are (parts of) file names
+        if s.is_empty() {
+            return Err(InvalidVersion::Empty);
+        }
+        if s.contains(|c| c == '/' || c == '\0') {
+            return Err(InvalidVersion::ForbiddenCharacter);
+        }
         Ok(Version { data: s.into() })
     }
 }
-- 
2.43.0


From 79c3b293aada6035220fb5e37fded4115f3b9218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 10/28] fix: an empty file is not a build

An empty local file was installed instead of the remote's build, and adding an
empty file failed only after it had replaced the existing build.
---
 src/index.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index ac268dd..35e42bd 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -178,6 +178,9 @@ impl Index {
         let file = self.local.get_file(path).await.context("fetch local file");
 
         match file {
+            Ok(FileEntry::InFilesystem(local)) if local.size == 0 => {
+                bail!("local file `{}` is empty", local.path)
+            }
             Ok(FileEntry::InFilesystem(local)) => Ok(local),
             Ok(_) => unreachable!("local storage always returns local files"),
             Err(e) => Err(e).context("get local build"),
@@ -389,18 +392,28 @@ impl Index {
             .local_path()
             .context("add_build can only write to local storage right now")?;
 
-        let path = match file {
+        let (path, size) = match file {
             FileEntry::InFilesystem(entry) => {
                 let path = Path::new(&entry.path);
                 ensure!(
                     !path.starts_with(&local),
                     "asked to add patch from same directory it would be written to"
                 );
-                path.canonicalize()
-                    .with_context(|| format!("canonicalize {}", path.display()))?
+                let path = path
+                    .canonicalize()
+                    .with_context(|| format!("canonicalize {}", path.display()))?;
+                (path, entry.size)
+            }
+            FileEntry::Inline(entry, content) => {
+                (Path::new(&entry.path).to_path_buf(), content.len() as u64)
             }
-            FileEntry::Inline(entry, ..) => Path::new(&entry.path).to_path_buf(),
         };
+        // Check this before touching what's already in the store.
+        ensure!(
+            size > 0,
+            "Asked to add `{}` but it's empty (size 0). That's not gonna be useful.",
+            path.display()
+        );
 
         let file_name = paths::file_name(&path)?;
         let version: Version = file_name.parse()?;
@@ -414,12 +427,6 @@ impl Index {
         let entry = Entry::from_path(&new_path, self.local.clone())
             .context("create entry for new build file")?;
 
-        ensure!(
-            entry.size > 0,
-            "Just added `{}` but it's empty (size 0). That's not gonna be useful.",
-            entry.path
-        );
-
         self.patch_graph
             .add_build(&version, entry.clone(), Location::Local)
             .with_context(|| format!("add build `{}`", path.display()))?;
-- 
2.43.0


From 1abba77ad8aadecedca11643771355a991e39ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 11/28] fix: list exactly the files of an S3 store

Only the first page of the listing was used, so sync uploaded (overwrote)
artefacts that were already there and install did not find them; and files of
other paths with the same prefix, as well as nested ones, were listed although
they can't be fetched.
---
 src/storage/mod.rs | 58 ++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index fe6f158..39a7274 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -175,33 +175,47 @@ impl Storage {
 
                 let client: S3Client = bucket.try_into().context("build S3 client")?;
 
-                let res = client
-                    .list_objects_v2(ListObjectsV2Request {
-                        bucket: bucket.bucket.to_owned(),
-                        prefix: Some(bucket.path.trim_start_matches('/').to_string()),
-                        ..Default::default()
-                    })
-                    .await
-                    .context("list files in bucket")?;
-                if res.is_truncated.unwrap_or_default() {
-                    log::debug!("didn't get all the files -- pagination not implemented!");
-                }
-
-                res.contents
-                    .unwrap_or_default()
-                    .iter()
-                    .map(|obj| {
-                        Ok(Entry {
+                // Only files directly below our path are ours: no file of
+                // `path-but-longer/` and no nested ones.
+                let prefix = bucket.key_for("");
+                let mut files = Vec::new();
+                let mut continuation_token = None;
+                loop {
+                    let res = client
+                        .list_objects_v2(ListObjectsV2Request {
+                            bucket: bucket.bucket.to_owned(),
+                            prefix: Some(prefix.clone()),
+                            continuation_token: continuation_token.take(),
+                            ..Default::default()
+                        })
+                        .await
+                        .context("list files in bucket")?;
+
+                    for obj in res.contents.unwrap_or_default() {
+                        let path = obj.key.context("got an object with no key")?;
+                        match path.strip_prefix(&prefix) {
+                            Some(name) if !name.is_empty() && !name.contains('/') => {}
+                            _ => continue,
+                        }
+                        files.push(Entry {
                             storage: self.clone(),
-                            path: obj.key.clone().context("got an object with no key")?,
+                            path,
                             size: obj
                                 .size
                                 .map(|s| s as u64)
                                 .context("got an object with no size")?,
-                        })
-                    })
-                    .collect::<Result<Vec<_>>>()
-                    .context("parsing file list from S3")
+                        });
+                    }
+
+                    if !res.is_truncated.unwrap_or_default() {
+                        break;
+                    }
+                    continuation_token = Some(
+                        res.next_continuation_token
+                            .context("got a truncated file list that can't be continued")?,
+                    );
+                }
+                Ok(files)
             }
         }
     }
-- 
2.43.0


From 0d79b604d2247edc2a77993a335fe3b2051ccf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 12/28] fix: never create a patch from a version to itself

create-patch rejected that, but add --calc-patch-from did it.
---
 src/index.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/index.rs b/src/index.rs
index 35e42bd..fb99374 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -85,6 +85,13 @@ impl Index {
             size.file_size(options::BINARY).expect("never negative")
         }
 
+        ensure!(
+            from != to,
+            "Rejecting to create patch between same versions ({}->{})",
+            from,
+            to
+        );
+
         if self.get_patch(from.clone(), to.clone()).await.is_ok() {
             log::warn!(
                 "asked to calculate patch from `{:?}` to `{:?}` but it's already present",
-- 
2.43.0


From 6d174c068de20c5629de94d11ddf569d5e76c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 13/28] fix: prefer the build named exactly like the tag

With several builds matching up to case and separators a random one was used.
---
 src/index.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/index.rs b/src/index.rs
index fb99374..c964b49 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -376,10 +376,12 @@ impl Index {
 
     pub fn get_build_for_tag(&self, tag: &str) -> Result<Version> {
         let parsed_tag = crate::git::tag_to_slice(tag);
+        // Names can differ in case and separators; the exact one is always best.
         self.patch_graph
             .builds
             .keys()
-            .find(|build| crate::git::tag_to_slice(build.as_str()) == parsed_tag)
+            .filter(|build| crate::git::tag_to_slice(build.as_str()) == parsed_tag)
+            .min_by_key(|build| (build.as_str() != tag, build.as_str()))
             .cloned()
             .with_context(|| format!("no build found matching tag `{}`", tag))
     }
-- 
2.43.0


From 923b6453151cf3755b909a9a2b39bb586bcde7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:14 +0000
Subject: [PATCH 14/28] fix: a file with a strange name must not make a store
 unusable

One file like `notes.patch.zst` in either store made every command fail.
---
 src/index/graph.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index 89b4683..c447902 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -47,7 +47,13 @@ impl PatchGraph {
             if entry.path.ends_with('/') {
                 continue;
             }
-            let version = paths::build_version_from_path(&entry.path)?;
+            let version = match paths::build_version_from_path(&entry.path) {
+                Ok(version) => version,
+                Err(e) => {
+                    log::warn!("ignoring `{}`, not a valid build name: {}", entry.path, e);
+                    continue;
+                }
+            };
             self.add_build(&version, entry.clone(), location)
                 .with_context(|| format!("add build `{}`", entry.path))?;
         }
@@ -57,7 +63,13 @@ impl PatchGraph {
             if entry.path.ends_with('/') {
                 continue;
             }
-            let Patch { from, to, .. } = Patch::from_path(&entry.path)?;
+            let Patch { from, to, .. } = match Patch::from_path(&entry.path) {
+                Ok(patch) => patch,
+                Err(e) => {
+                    log::warn!("ignoring `{}`, not a valid patch name: {}", entry.path, e);
+                    continue;
+                }
+            };
             match self.add_patch(&from, &to, entry.clone(), location) {
                 Ok(_) => log::debug!("added patch `{}`", entry.path),
                 e => {
-- 
2.43.0


From ce10b78219e540231b225259acf4cb131296552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 15/28] fix: don't forget patches whose builds are found later

Patches on the remote between builds that are only available locally were
dropped while building the index (remote files are added first), so they were
neither used nor recognized, and sync overwrote them on the remote. The same
happened to patches of a build that was added later on.
---
 src/index/graph.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index c447902..dc6a543 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -17,6 +17,8 @@ pub struct PatchGraph {
     pub(crate) builds: HashMap<Version, NodeIndex<DefaultIx>>,
     /// helper for looking up edges in the graph
     patches: HashMap<(Version, Version), EdgeIndex<DefaultIx>>,
+    /// patches we can't add yet because we don't know both of their builds
+    orphaned_patches: Vec<(Patch, Entry, Location)>,
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -70,6 +72,13 @@ impl PatchGraph {
                     continue;
                 }
             };
+            if !self.has_build(from.clone()) || !self.has_build(to.clone()) {
+                log::debug!("don't know both builds of patch `{}` (yet)", entry.path);
+                let patch = Patch::new(from, to);
+                self.orphaned_patches
+                    .push((patch, entry.clone(), location));
+                continue;
+            }
             match self.add_patch(&from, &to, entry.clone(), location) {
                 Ok(_) => log::debug!("added patch `{}`", entry.path),
                 e => {
@@ -114,6 +123,15 @@ impl PatchGraph {
             }
         }
 
+        // That might have been the build some patches were waiting for.
+        for (patch, entry, location) in std::mem::take(&mut self.orphaned_patches) {
+            if self.has_build(patch.from.clone()) && self.has_build(patch.to.clone()) {
+                self.add_patch(&patch.from, &patch.to, entry, location)?;
+            } else {
+                self.orphaned_patches.push((patch, entry, location));
+            }
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 4815379164f07d5d8400f39384a09ad78c7c7439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 16/28] fix: recognize corrupt patches

Without checksums most changed bytes in a patch went unnoticed and led to a
corrupt build; a truncated patch could as well.
---
 src/apply_patch.rs | 7 ++++---
 src/compression.rs | 8 +++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/apply_patch.rs b/src/apply_patch.rs
index 8571aed..54c7561 100644
--- a/src/apply_patch.rs
+++ b/src/apply_patch.rs
@@ -4,7 +4,6 @@ use std::{
     io::{BufReader, Cursor, Read},
     path::Path,
 };
-use zstd::stream::read::Decoder as ZstdDecoder;
 
 pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result<impl Read> {
     let archive = archive.as_ref();
@@ -12,7 +11,9 @@ pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result
 
     let patch_file =
         File::open(patch).with_context(|| format!("open file `{}`", patch.display()))?;
-    let patch_decompressed = ZstdDecoder::new(patch_file)
+    // Decode all of it before using any of it: a truncated patch ends like a
+    // complete one as far as `bipatch` can tell.
+    let patch_decompressed = zstd::stream::decode_all(BufReader::new(patch_file))
         .with_context(|| format!("read zstd compressed file `{}`", patch.display()))?;
 
     let archive_file =
@@ -20,7 +21,7 @@ pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result
     let archive_decompressed = zstd::stream::decode_all(BufReader::new(archive_file))
         .with_context(|| format!("read zstd compressed file `{}`", archive.display()))?;
 
-    bipatch::Reader::new(patch_decompressed, Cursor::new(archive_decompressed))
+    bipatch::Reader::new(Cursor::new(patch_decompressed), Cursor::new(archive_decompressed))
         .context("read patch")
 }
 
diff --git a/src/compression.rs b/src/compression.rs
index 000c65b..6a008f4 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -6,7 +6,13 @@ use std::{
 use zstd::stream::{decode_all, write::Encoder as ZstdEncoder};
 
 pub fn compress<W: Write>(w: W) -> Result<ZstdEncoder<'static, W>> {
-    ZstdEncoder::new(w, compression_level()).context("Can't instantiate ZSTD encoder")
+    let mut encoder =
+        ZstdEncoder::new(w, compression_level()).context("Can't instantiate ZSTD encoder")?;
+    // allows us to recognize corrupt files
+    encoder
+        .include_checksum(true)
+        .context("Can't enable checksums in ZSTD encoder")?;
+    Ok(encoder)
 }
 
 pub fn decompress<R: Read>(r: R) -> Result<Vec<u8>> {
-- 
2.43.0


From 4d0d8eb29f6dd9365d2addcde29f4593b50ad14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 17/28] fix: find the newest tag by comparing whole numbers

1.0.11 was taken to be newer than 1.0.100, and which of two tags is newer
depended on whether they are written with dots or dashes.
---
 src/git.rs | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/git.rs b/src/git.rs
index 2a93967..5ad76d9 100644
--- a/src/git.rs
+++ b/src/git.rs
@@ -1,5 +1,6 @@
 use erreur::{Context, Result};
 use smol_str::SmolStr;
+use std::cmp::Ordering;
 
 #[derive(Debug, Clone)]
 pub struct Tag {
@@ -36,6 +37,44 @@ pub fn tag_to_slice(tag: &str) -> Vec<SmolStr> {
         .collect()
 }
 
+/// Natural order of tags, treating case and separators like `tag_to_slice` does.
+fn compare_tags(a: &str, b: &str) -> Ordering {
+    /// Split off the number or else the single character at the start.
+    fn next_part(x: &str) -> Option<(&str, &str)> {
+        let first = x.chars().next()?;
+        let digits = x.bytes().take_while(u8::is_ascii_digit).count();
+        Some(x.split_at(digits.max(first.len_utf8())))
+    }
+
+    fn compare_components(mut a: &str, mut b: &str) -> Ordering {
+        while let (Some((x, rest_a)), Some((y, rest_b))) = (next_part(a), next_part(b)) {
+            let is_number = |x: &str| x.starts_with(|c: char| c.is_ascii_digit());
+            let order = if is_number(x) && is_number(y) {
+                let (x, y) = (x.trim_start_matches('0'), y.trim_start_matches('0'));
+                (x.len(), x).cmp(&(y.len(), y))
+            } else {
+                x.cmp(y)
+            };
+            if order != Ordering::Equal {
+                return order;
+            }
+            a = rest_a;
+            b = rest_b;
+        }
+        a.len().cmp(&b.len())
+    }
+
+    let (slice_a, slice_b) = (tag_to_slice(a), tag_to_slice(b));
+    slice_a
+        .iter()
+        .zip(&slice_b)
+        .map(|(x, y)| compare_components(x, y))
+        .find(|order| *order != Ordering::Equal)
+        .unwrap_or_else(|| slice_a.len().cmp(&slice_b.len()))
+        // never depend on the order we were given
+        .then_with(|| a.cmp(b))
+}
+
 /// assume versions are in format `….c.b.a` (or `…-c-b-a`)
 pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>> {
     fn dec(x: &SmolStr) -> Option<SmolStr> {
@@ -46,7 +85,7 @@ pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>>
 
     let tags = {
         let mut tags = tags.to_vec();
-        tags.sort_by(|a, b| human_sort::compare(a, b));
+        tags.sort_by(|a, b| compare_tags(a, b));
         tags
     };
     let parsed_tags = tags.iter().map(|tag| tag_to_slice(tag)).collect::<Vec<_>>();
-- 
2.43.0


From 81b7233e980df4e49f81369096d9e934589e92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:11 +0000
Subject: [PATCH 18/28] fix: recognise predecessors with large and zero-padded
 numbers

Components like 20200629123456 or 08 never had a predecessor.
---
 src/git.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/git.rs b/src/git.rs
index 5ad76d9..21c076e 100644
--- a/src/git.rs
+++ b/src/git.rs
@@ -77,10 +77,13 @@ fn compare_tags(a: &str, b: &str) -> Ordering {
 
 /// assume versions are in format `….c.b.a` (or `…-c-b-a`)
 pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>> {
-    fn dec(x: &SmolStr) -> Option<SmolStr> {
-        let num = x.parse::<u32>().ok()?;
-        let prev = num.checked_sub(1)?;
-        Some(SmolStr::from(prev.to_string()))
+    // wide enough for dates and times, too
+    fn number(x: &SmolStr) -> Option<u128> {
+        x.parse().ok()
+    }
+
+    fn dec(x: &SmolStr) -> Option<u128> {
+        number(x)?.checked_sub(1)
     }
 
     let tags = {
@@ -94,21 +97,16 @@ pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>>
         .filter_map(|pos_from_end| {
             if let Some(x) = current.iter().rev().nth(pos_from_end).and_then(dec) {
                 let pos = current.len() - pos_from_end - 1;
-                let prev = {
-                    let mut prev = current.to_vec();
-                    prev[pos] = x;
-                    prev
-                };
-
                 if let Some((idx, _)) = parsed_tags
                     .iter()
                     .enumerate()
-                    .filter(|(_idx, tag)| tag.starts_with(&prev[..=pos]))
+                    .filter(|(_idx, tag)| tag.starts_with(&current[..pos]))
+                    .filter(|(_idx, tag)| tag.get(pos).and_then(number) == Some(x))
                     .last()
                 {
                     return Some(tags[idx].clone());
                 } else {
-                    log::debug!("no matching tag for {:?}", prev);
+                    log::debug!("no matching tag for {:?} and then {}", &current[..pos], x);
                 }
             }
             None
-- 
2.43.0


From 0561d7d2692cd23e491cc29bb01cdac82f8163da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:55 +0000
Subject: [PATCH 19/28] fix: ignore tags that do not belong to a commit

A single tag of a blob (a signing key for example) made auto-patch fail.
---
 src/git.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/git.rs b/src/git.rs
index 21c076e..c674b57 100644
--- a/src/git.rs
+++ b/src/git.rs
@@ -1,4 +1,5 @@
 use erreur::{Context, Result};
+use git2::ErrorCode;
 use smol_str::SmolStr;
 use std::cmp::Ordering;
 
@@ -14,8 +15,16 @@ pub fn get_tags(repo: &git2::Repository) -> Result<Vec<Tag>> {
         .context("cannot load references from repo")?
         .filter_map(|x| x.ok())
         .filter(|r| r.is_tag())
-        .map(|reference| {
-            let commit = reference.peel_to_commit().with_context(|| {
+        .filter_map(|reference| match reference.peel_to_commit() {
+            // Signing keys and the like: a tag, but not one of any version.
+            Err(e) if matches!(e.code(), ErrorCode::Peel | ErrorCode::InvalidSpec) => {
+                log::debug!("ignoring tag {:?}: {}", reference.name(), e);
+                None
+            }
+            commit => Some((reference, commit)),
+        })
+        .map(|(reference, commit)| {
+            let commit = commit.with_context(|| {
                 format!("cannot get commit for reference {:?}", reference.name())
             })?;
             Ok(Tag {
-- 
2.43.0


From 721bbec232c7e83a575525b3826b946baf72b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 20/28] fix: create patches from empty builds

---
 src/index.rs | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index c964b49..ecd4df2 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -128,23 +128,36 @@ impl Index {
         let mut patch_file =
             PartialFile::create(&patch_path).context("creating file to write patch to")?;
         let mut patch = crate::compress(&mut patch_file)?;
-        bidiff::simple_diff_with_params(&old_build, &new_build, &mut patch, &{
-            const MB: u64 = 1_000_000;
-            bidiff::DiffParams::new(
-                {
-                    if new_build_size > (100 * MB) {
-                        4
-                    } else {
-                        1
-                    }
-                },
-                Some(100 * MB as usize),
-            )
-            .map_err(|e| Report::msg(e.to_string()))
-            .context("valid diff params")
-            .note("this is a programming error, please open an issue")?
-        })
-        .context("calculating binary diff between builds")?;
+        if old_build.is_empty() {
+            // There is nothing to find matches in (and the diff algorithm panics if we ask it to)
+            bidiff::enc::Writer::new(&mut patch)
+                .and_then(|mut writer| {
+                    writer.write(&bidiff::Control {
+                        add: &[],
+                        copy: &new_build,
+                        seek: 0,
+                    })
+                })
+                .context("writing diff to an empty build")?;
+        } else {
+            bidiff::simple_diff_with_params(&old_build, &new_build, &mut patch, &{
+                const MB: u64 = 1_000_000;
+                bidiff::DiffParams::new(
+                    {
+                        if new_build_size > (100 * MB) {
+                            4
+                        } else {
+                            1
+                        }
+                    },
+                    Some(100 * MB as usize),
+                )
+                .map_err(|e| Report::msg(e.to_string()))
+                .context("valid diff params")
+                .note("this is a programming error, please open an issue")?
+            })
+            .context("calculating binary diff between builds")?;
+        }
         patch.finish().context("finishing zstd file")?;
         patch_file
             .finish()
-- 
2.43.0


From 7e71fdb72ccac11d02d5f803a611bcfac92dba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:09 +0000
Subject: [PATCH 21/28] fix: don't take other answers for an empty file list

---
 src/storage/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 39a7274..64030de 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -191,6 +191,11 @@ impl Storage {
                         .await
                         .context("list files in bucket")?;
 
+                    // Every file list says this; without it, it's not a file list.
+                    let is_truncated = res
+                        .is_truncated
+                        .context("got an invalid file list from S3")?;
+
                     for obj in res.contents.unwrap_or_default() {
                         let path = obj.key.context("got an object with no key")?;
                         match path.strip_prefix(&prefix) {
@@ -207,7 +212,7 @@ impl Storage {
                         });
                     }
 
-                    if !res.is_truncated.unwrap_or_default() {
+                    if !is_truncated {
                         break;
                     }
                     continuation_token = Some(
-- 
2.43.0


From 35e1100a89ef9c4ff999d5c4bff263a2d7cf15c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:19 +0000
Subject: [PATCH 22/28] fix: remember what has been uploaded

---
 src/index.rs | 28 +++++++++++++++++++++++-----
 src/lib.rs   |  2 +-
 src/main.rs  |  2 +-
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index ecd4df2..1e0019d 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -9,6 +9,7 @@ use std::{
     fs::File,
     io::{self, BufReader, Cursor, Read},
     path::Path,
+    sync::Mutex,
 };
 
 mod build;
@@ -497,9 +498,12 @@ impl Index {
 
     // Fetch current state from S3 and upload all missing files (i.e. new builds
     // and patches)
-    pub async fn push(&self) -> Result<()> {
+    pub async fn push(&mut self) -> Result<()> {
         use futures::stream::{self, StreamExt, TryStreamExt};
 
+        let remote = &self.remote;
+        let uploaded = Mutex::new(Vec::new());
+
         let builds = self
             .patch_graph
             .local_only_builds()
@@ -538,7 +542,7 @@ impl Index {
         );
         let patches = stream::iter(patches);
 
-        builds
+        let res = builds
             .chain(patches)
             .map(|x| -> Result<Entry> { Ok(x) }) // necessary for fallible method and type inference
             .try_for_each_concurrent(3, |entry| async {
@@ -548,17 +552,31 @@ impl Index {
                     .next()
                     .expect("always one item in split")
                     .to_owned();
-                self.remote
+                let size = entry.size;
+                remote
                     .add_file(&FileEntry::InFilesystem(entry), &s3_key)
                     .await
                     .with_context(|| format!("adding `{}`", s3_key))?;
                 log::info!("uploaded `{}`", s3_key);
+                uploaded.lock().expect("never poisoned").push(Entry {
+                    storage: remote.clone(),
+                    path: s3_key,
+                    size,
+                });
                 Ok(())
             })
             .await
-            .context("uploading missing files to remote")?;
+            .context("uploading missing files to remote");
 
-        Ok(())
+        // Those are not missing anymore, even if others are.
+        self.patch_graph
+            .update_from_file_list(
+                &uploaded.into_inner().expect("never poisoned"),
+                Location::Remote,
+            )
+            .context("add uploaded files to index")?;
+
+        res
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index bab5c1f..8e2151a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -30,7 +30,7 @@ pub mod cli;
 #[cfg(test)]
 pub(crate) mod test_helpers;
 
-pub async fn sync(index: &ArtefactIndex) -> Result<()> {
+pub async fn sync(index: &mut ArtefactIndex) -> Result<()> {
     index.push().await.context("sync new local files to remote")
 }
 
diff --git a/src/main.rs b/src/main.rs
index a956673..2153708 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -23,7 +23,7 @@ async fn main() -> Result<()> {
             dbg!(index);
         }
         Command::Sync => {
-            artefacta::sync(&index).await?;
+            artefacta::sync(&mut index).await?;
         }
         Command::Install { version } => {
             let current = args.local_store.join("current");
-- 
2.43.0


From 0a434881410fd3f9016b8c6d4acd886226681ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 23/28] fix: store artefacts whose names are nearly as long as
 file names can be

---
 src/partial_file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/partial_file.rs b/src/partial_file.rs
index 9f48b2c..196bc54 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -143,6 +143,9 @@ pub(crate) fn create_unique_temp<T>(
     unreachable!("there always is another name to try")
 }
 
+/// File names are limited to 255 bytes, and we add some to this.
+const MAX_NAME_IN_TEMP_NAME: usize = 180;
+
 fn generate_partial_file_name(path: &Path, attempt: u32) -> Result<PathBuf> {
     let target_file_name = path
         .file_name()
@@ -156,7 +159,11 @@ fn generate_partial_file_name(path: &Path, attempt: u32) -> Result<PathBuf> {
     let new_file_name = {
         let mut res = OsString::from("._");
         res.push(&temp_prefix);
-        res.push(target_file_name);
+        // The target's name is only there to help humans, and a name that is just
+        // about short enough for a file would become too long.
+        if target_file_name.len() <= MAX_NAME_IN_TEMP_NAME {
+            res.push(target_file_name);
+        }
         res.push(".part");
         res
     };
-- 
2.43.0


From 8c1a5c668ce9d1381942364af5b91ccb05add8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:51 +0000
Subject: [PATCH 24/28] fix: add a build given by a symlink under the name that
 was given

---
 src/index.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 1e0019d..ecf1244 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -401,15 +401,25 @@ impl Index {
     }
 
     pub async fn add_local_build(&mut self, path: impl AsRef<Path>) -> Result<Entry> {
-        let entry = Entry::from_path(path.as_ref(), self.local.clone())
-            .context("local build file as entry")?;
-        self.add_build(&FileEntry::InFilesystem(entry))
+        let path = path.as_ref();
+        let entry =
+            Entry::from_path(path, self.local.clone()).context("local build file as entry")?;
+        // The name we were given counts, even if it is one of a symlink.
+        self.add_build_as(&FileEntry::InFilesystem(entry), path)
             .await
             .context("add local build file")
     }
 
     /// Add build to graph and copy it into index's root directory
     pub(crate) async fn add_build(&mut self, file: &FileEntry) -> Result<Entry> {
+        let name = match file {
+            FileEntry::InFilesystem(entry) | FileEntry::Inline(entry, _) => Path::new(&entry.path),
+        };
+        self.add_build_as(file, name).await
+    }
+
+    /// Like `add_build`, but the version is the one `name` denotes
+    async fn add_build_as(&mut self, file: &FileEntry, name: &Path) -> Result<Entry> {
         let local = self
             .local
             .local_path()
@@ -438,7 +448,7 @@ impl Index {
             path.display()
         );
 
-        let file_name = paths::file_name(&path)?;
+        let file_name = paths::file_name(name)?;
         let version: Version = file_name.parse()?;
         let new_path = local.join(format!("{}.tar.zst", version.as_str()));
 
-- 
2.43.0


From 28760154f6bed2d4111b978c7e39b7bfe241e883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 25/28] fix: don't take a directory with an artefact's name for
 the artefact

---
 src/storage/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 64030de..850fc5b 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -229,7 +229,8 @@ impl Storage {
         match self.inner.as_ref() {
             InnerStorage::Filesystem(root) => {
                 let path = root.join(path);
-                ensure!(path.exists(), "Path `{}` does not exist", path.display());
+                // A directory can't be an artefact, whatever its name is.
+                ensure!(path.is_file(), "File `{}` does not exist", path.display());
                 let size = path
                     .metadata()
                     .with_context(|| format!("read metadata of `{}`", path.display()))?
-- 
2.43.0


From b139006622238100ae489c7550864ff70cf76a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 26/28] fix: a component like +1 is no number of a version

---
 src/git.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/git.rs b/src/git.rs
index c674b57..a8e1cd0 100644
--- a/src/git.rs
+++ b/src/git.rs
@@ -88,6 +88,10 @@ fn compare_tags(a: &str, b: &str) -> Ordering {
 pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>> {
     // wide enough for dates and times, too
     fn number(x: &SmolStr) -> Option<u128> {
+        // `parse` accepts a sign, but that's no part of a version's number
+        if x.starts_with('+') {
+            return None;
+        }
         x.parse().ok()
     }
 
-- 
2.43.0


From 53069ba8687ced7b07648721589ae1e536578d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 27/28] fix: a package does not contain the temporary file it
 is written to

If the packaged directory contained the temporary one, the archive contained
itself (as far as it was written, under a random name).
---
 src/lib.rs       |  8 +++++++-
 src/packaging.rs | 12 ++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8e2151a..970f73e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,6 +13,7 @@ pub use index::{Index as ArtefactIndex, Version};
 
 mod packaging;
 pub use packaging::package;
+use packaging::package_without;
 
 mod storage;
 pub use storage::Storage;
@@ -130,7 +131,12 @@ pub async fn add_package(
         .with_context(|| format!("cannot create file `{}`", archive_path.display()))?;
     let mut archive = compress(&mut archive_file)
         .with_context(|| format!("cannot create zstd file `{}`", archive_path.display()))?;
-    package(&build_path, &mut archive)
+    // We might have been asked to package a directory our temporary one is in.
+    let tmp_path = tmp
+        .path()
+        .canonicalize()
+        .with_context(|| format!("cannot canonicalize path `{}`", tmp.path().display()))?;
+    package_without(&build_path, Some(&tmp_path), &mut archive)
         .with_context(|| format!("package archive `{}`", archive_path.display()))?;
     archive
         .finish()
diff --git a/src/packaging.rs b/src/packaging.rs
index 5e04761..dab458a 100644
--- a/src/packaging.rs
+++ b/src/packaging.rs
@@ -9,6 +9,16 @@ use std::{
 use walkdir::WalkDir;
 
 pub fn package(source: &Path, target: impl Write) -> Result<()> {
+    package_without(source, None, target)
+}
+
+/// Like `package`, but leaves out a path that might be in `source` only because
+/// it was created to hold the archive.
+pub(crate) fn package_without(
+    source: &Path,
+    left_out: Option<&Path>,
+    target: impl Write,
+) -> Result<()> {
     let mut archive = tar::Builder::new(target);
     archive.mode(tar::HeaderMode::Deterministic);
     log::debug!("writing files from `{}` to archive", source.display());
@@ -29,6 +39,8 @@ pub fn package(source: &Path, target: impl Write) -> Result<()> {
         let file = file.context("read file")?;
         if file.file_type().is_dir() {
             log::trace!("skipping directory entry in tar");
+        } else if left_out.map_or(false, |left_out| file.path().starts_with(left_out)) {
+            log::trace!("skipping file that is not part of the source");
         } else if file.file_type().is_file() {
             add_file(&mut archive, &file, root)
                 .with_context(|| format!("add `{}` to archive", file.path().display()))?;
-- 
2.43.0


From 0202f3933f272394d4487c68199437153232c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 28/28] fix: packaging a file that changes while it is read
 gave a package that could not be read

The size in the header was the one of the directory entry, looked at before the
file was opened; whatever was read then was written behind it. If the file grew,
shrank or was replaced in between, everything behind it in the archive was
unreadable, but the command succeeded (and uploaded it).
---
 src/packaging.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/packaging.rs b/src/packaging.rs
index dab458a..3fef19c 100644
--- a/src/packaging.rs
+++ b/src/packaging.rs
@@ -1,9 +1,9 @@
 //! Package build using `tar` in the most deterministic way possible.
 
-use erreur::{Context, Result};
+use erreur::{ensure, Context, Result};
 use std::{
     fs,
-    io::{BufReader, Write},
+    io::{BufReader, Read, Write},
     path::Path,
 };
 use walkdir::WalkDir;
@@ -67,7 +67,9 @@ fn add_file<W: Write>(
             path.display()
         );
     }
-    let metadata = file.metadata().context("read metadata")?;
+    let data = fs::File::open(file.path()).context("open file")?;
+    let metadata = data.metadata().context("read metadata")?;
+    ensure!(metadata.is_file(), "no longer a file");
 
     // Welcome to this new tar file entry.
     //
@@ -96,13 +98,16 @@ fn add_file<W: Write>(
         .set_device_minor(0)
         .context("set device minor header")?;
 
-    let file = BufReader::new(fs::File::open(file.path()).context("open file")?);
+    // The payload has to be exactly as long as the header says, or everything
+    // behind it can't be read.
+    let mut data = BufReader::new(data).take(metadata.len());
 
     // Note: This also sets the file path in the header, and then appends header
     // and payload to the archive.
     archive
-        .append_data(&mut header, path, file)
+        .append_data(&mut header, path, &mut data)
         .context("append file")?;
+    ensure!(data.limit() == 0, "file got shorter while it was read");
     Ok(())
 }
 
-- 
2.43.0

