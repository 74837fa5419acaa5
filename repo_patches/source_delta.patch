From 26631e52d4535028d6c918653c6fc31f4ea1920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:48 +0000
Subject: [PATCH 01/43] hook: in-process entry point for the simulator (feature
 sim-hooks, off by default)

---
 crates/decy/Cargo.toml  |  2 ++
 crates/decy/src/main.rs | 28 +++++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/crates/decy/Cargo.toml b/crates/decy/Cargo.toml
index 982aadb..a1f5a01 100644
--- a/crates/decy/Cargo.toml
+++ b/crates/decy/Cargo.toml
@@ -34,6 +34,8 @@ default = []
 oracle = ["decy-oracle"]
 # Full CITL with entrenar integration
 citl = ["oracle", "decy-oracle/citl"]
+# In-process entry point for the deterministic simulator; off in every shipped build
+sim-hooks = []
 
 [dev-dependencies]
 provable-contracts = { version = "0.2.1", path = "../../../provable-contracts/crates/provable-contracts" }
diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 924b38c..35c55cf 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -269,8 +269,34 @@ fn main() -> Result<()> {
     result
 }
 
+/// Arguments of a simulated invocation, in place of the process arguments.
+#[cfg(feature = "sim-hooks")]
+pub type SimArgs = Vec<String>;
+
+#[cfg(feature = "sim-hooks")]
+thread_local! {
+    static SIM_ARGS: std::cell::RefCell<SimArgs> = const { std::cell::RefCell::new(Vec::new()) };
+}
+
+/// Run the command-line program in-process with the given arguments (simulation only).
+#[cfg(feature = "sim-hooks")]
+pub fn sim_main(args: SimArgs) -> Result<()> {
+    SIM_ARGS.with(|a| *a.borrow_mut() = args);
+    main()
+}
+
+#[cfg(feature = "sim-hooks")]
+fn parse_cli() -> Cli {
+    Cli::parse_from(SIM_ARGS.with(|a| a.borrow().clone()))
+}
+
+#[cfg(not(feature = "sim-hooks"))]
+fn parse_cli() -> Cli {
+    Cli::parse()
+}
+
 fn run() -> Result<()> {
-    let cli = Cli::parse();
+    let cli = parse_cli();
 
     match cli.command {
         Some(Commands::Transpile {
-- 
2.43.0


From 6071346349724e39edce1183abfc96e9ede4e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:02 +0000
Subject: [PATCH 02/43] fix: a dependency that cannot be read invalidates its
 cache entry

---
 crates/decy-core/src/lib.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index c2f0317..8d94f46 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -428,9 +428,11 @@ impl TranspilationCache {
         // Compute dependency hashes
         let mut dependency_hashes = HashMap::new();
         for dep_path in &transpiled.dependencies {
-            if let Ok(dep_hash) = self.compute_hash(dep_path) {
-                dependency_hashes.insert(dep_path.clone(), dep_hash);
-            }
+            match self.compute_hash(dep_path) {
+                Ok(dep_hash) => dependency_hashes.insert(dep_path.clone(), dep_hash),
+                // Without its hash a later change of the dependency would go unnoticed
+                Err(_) => return,
+            };
         }
 
         let entry = CacheEntry { hash, transpiled: transpiled.clone(), dependency_hashes };
@@ -456,11 +458,10 @@ impl TranspilationCache {
 
         // Check if any dependency has changed
         for (dep_path, cached_hash) in &entry.dependency_hashes {
-            if let Ok(current_dep_hash) = self.compute_hash(dep_path) {
-                if &current_dep_hash != cached_hash {
-                    self.misses += 1;
-                    return None;
-                }
+            // A dependency that cannot be read any more has changed, too
+            if self.compute_hash(dep_path).ok().as_ref() != Some(cached_hash) {
+                self.misses += 1;
+                return None;
             }
         }
 
-- 
2.43.0


From f02a581be57f628b3e1a7a38e9b83f1f7ade9bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:02 +0000
Subject: [PATCH 03/43] fix: count lookups of absent or unreadable files as
 cache misses

---
 crates/decy-core/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 8d94f46..2a28883 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -447,11 +447,14 @@ impl TranspilationCache {
     /// - File content has changed
     /// - Any dependency has changed
     pub fn get(&mut self, path: &Path) -> Option<&TranspiledFile> {
-        let entry = self.entries.get(&path.to_path_buf())?;
+        let Some(entry) = self.entries.get(&path.to_path_buf()) else {
+            self.misses += 1;
+            return None;
+        };
 
         // Check if file hash matches
-        let current_hash = self.compute_hash(path).ok()?;
-        if current_hash != entry.hash {
+        let current_hash = self.compute_hash(path).ok();
+        if current_hash.as_ref() != Some(&entry.hash) {
             self.misses += 1;
             return None;
         }
-- 
2.43.0


From 45d7add32bc8cb97e9d3c0172b2d1761f0233e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:02 +0000
Subject: [PATCH 04/43] fix: replace the cache file atomically when saving

---
 crates/decy-core/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 2a28883..f092e66 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -485,8 +485,15 @@ impl TranspilationCache {
         let json =
             serde_json::to_string_pretty(&self.entries).context("Failed to serialize cache")?;
 
-        std::fs::write(&cache_file, json)
-            .with_context(|| format!("Failed to write cache file: {}", cache_file.display()))?;
+        // Write next to the old cache and swap, so that a crash leaves one or the other
+        let temp_file = cache_dir.join(format!("cache.json.{}.tmp", std::process::id()));
+        let written = std::fs::write(&temp_file, json)
+            .and_then(|()| std::fs::File::open(&temp_file)?.sync_all())
+            .and_then(|()| std::fs::rename(&temp_file, &cache_file));
+        if written.is_err() {
+            let _ = std::fs::remove_file(&temp_file);
+        }
+        written.with_context(|| format!("Failed to write cache file: {}", cache_file.display()))?;
 
         Ok(())
     }
-- 
2.43.0


From 7f770144a8e3e3200846d9b708c5fbda953dc7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:02 +0000
Subject: [PATCH 05/43] fix: recognise a header included again under another
 spelling of its path

---
 crates/decy-core/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index f092e66..f077b43 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -626,9 +626,11 @@ fn preprocess_includes(
 
             // Resolve include path relative to base_dir
             let include_path = base_dir.join(filename);
+            // The same header can be reached by different spellings ("../inc/a.h")
+            let include_key = include_path.canonicalize().unwrap_or_else(|_| include_path.clone());
 
             // Check if already processed (circular dependency or duplicate)
-            if processed.contains(&include_path) {
+            if processed.contains(&include_key) {
                 // Already processed, skip (header guards working)
                 result.push_str(&format!("// Already included: {}\n", filename));
                 continue;
@@ -637,7 +639,7 @@ fn preprocess_includes(
             // Try to read the included file
             if let Ok(included_content) = std::fs::read_to_string(&include_path) {
                 // Mark as processed
-                processed.insert(include_path.clone());
+                processed.insert(include_key);
 
                 // Get directory of included file for nested includes
                 let included_dir = include_path.parent().unwrap_or(base_dir);
-- 
2.43.0


From 3ffb75bba0e1ab4e78430b861caa947e8d1858f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:02 +0000
Subject: [PATCH 06/43] fix: transpile_file resolves includes next to the file
 and depends on every header read

---
 crates/decy-core/src/lib.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index f077b43..3e2b331 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1628,8 +1628,8 @@ pub fn transpile_file(path: &Path, _context: &ProjectContext) -> Result<Transpil
     // Parse dependencies from #include directives (simplified: just detect presence)
     let dependencies = extract_dependencies(path, &c_code)?;
 
-    // Transpile the C code using the main pipeline
-    let rust_code = transpile(&c_code)?;
+    // Transpile the C code using the main pipeline, with includes relative to the file
+    let rust_code = transpile_with_includes(&c_code, path.parent())?;
 
     // Extract function names from the generated Rust code
     let functions_exported = extract_function_names(&rust_code);
@@ -1650,8 +1650,22 @@ pub fn transpile_file(path: &Path, _context: &ProjectContext) -> Result<Transpil
 ///
 /// This is a simplified implementation that detects #include directives
 /// and resolves them relative to the source file's directory.
+///
+/// Headers are followed like transpilation does, so the result holds every local file that the
+/// translation depends on.
 fn extract_dependencies(source_path: &Path, c_code: &str) -> Result<Vec<PathBuf>> {
     let mut dependencies = Vec::new();
+    let mut visited = std::collections::HashSet::new();
+    collect_dependencies(source_path, c_code, &mut visited, &mut dependencies)?;
+    Ok(dependencies)
+}
+
+fn collect_dependencies(
+    source_path: &Path,
+    c_code: &str,
+    visited: &mut std::collections::HashSet<PathBuf>,
+    dependencies: &mut Vec<PathBuf>,
+) -> Result<()> {
     let source_dir = source_path
         .parent()
         .ok_or_else(|| anyhow::anyhow!("Source file has no parent directory"))?;
@@ -1664,15 +1678,22 @@ fn extract_dependencies(source_path: &Path, c_code: &str) -> Result<Vec<PathBuf>
                 if let Some(end) = trimmed[start + 1..].find('"') {
                     let header_name = &trimmed[start + 1..start + 1 + end];
                     let header_path = source_dir.join(header_name);
-                    if header_path.exists() {
-                        dependencies.push(header_path);
+                    let header_key =
+                        header_path.canonicalize().unwrap_or_else(|_| header_path.clone());
+                    if !visited.insert(header_key) {
+                        continue;
                     }
+                    let header_code = std::fs::read_to_string(&header_path).with_context(|| {
+                        format!("Failed to find include file: {}", header_path.display())
+                    })?;
+                    collect_dependencies(&header_path, &header_code, visited, dependencies)?;
+                    dependencies.push(header_path);
                 }
             }
         }
     }
 
-    Ok(dependencies)
+    Ok(())
 }
 
 /// Extract function names from generated Rust code.
-- 
2.43.0


From 359f1ee60c4ccd7811171ca785ca32318143e8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:39 +0000
Subject: [PATCH 07/43] fix: transpile-project restores a missing or incomplete
 output on a cache hit

---
 crates/decy/src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 35c55cf..6dfb0c8 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -808,7 +808,16 @@ fn transpile_project(
 
         // Check cache
         if use_cache {
-            if let Some(_cached) = cache.get(&file_path) {
+            if let Some(cached) = cache.get(&file_path) {
+                // The output may be gone, or incomplete after an interrupted run
+                let output_path = output_dir.join(relative_path).with_extension("rs");
+                if fs::read(&output_path).ok().as_deref() != Some(cached.rust_code.as_bytes()) {
+                    if let Some(parent) = output_path.parent() {
+                        fs::create_dir_all(parent)?;
+                    }
+                    fs::write(&output_path, &cached.rust_code)
+                        .with_context(|| format!("Failed to write {}", output_path.display()))?;
+                }
                 if verbose {
                     println!("✓ Cached: {}", relative_path.display());
                 }
-- 
2.43.0


From 0ae70cca5cf07d0db7165e4406c397af38b4f0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:39 +0000
Subject: [PATCH 08/43] fix: a directory that cannot be listed fails the
 project instead of being skipped

---
 crates/decy/src/main.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 6dfb0c8..7e09c6c 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -731,8 +731,12 @@ fn transpile_project(
 
     // Find all C/C++/CUDA source files
     let c_files: Vec<PathBuf> = WalkDir::new(&input_dir)
+        .sort_by_file_name()
         .into_iter()
-        .filter_map(|e| e.ok())
+        .collect::<walkdir::Result<Vec<_>>>()
+        .with_context(|| format!("Failed to list {}", input_dir.display()))?
+        .into_iter()
+        .filter(|e| !e.file_type().is_dir())
         .filter(|e| {
             matches!(
                 e.path().extension().and_then(|s| s.to_str()),
@@ -959,8 +963,12 @@ fn check_project(input_dir: PathBuf) -> Result<()> {
 
     // Find all C files
     let c_files: Vec<PathBuf> = WalkDir::new(&input_dir)
+        .sort_by_file_name()
         .into_iter()
-        .filter_map(|e| e.ok())
+        .collect::<walkdir::Result<Vec<_>>>()
+        .with_context(|| format!("Failed to list {}", input_dir.display()))?
+        .into_iter()
+        .filter(|e| !e.file_type().is_dir())
         .filter(|e| e.path().extension().and_then(|s| s.to_str()) == Some("c"))
         .map(|e| e.path().to_path_buf())
         .collect();
-- 
2.43.0


From 269b9bbd550e5b1d494a025ba8bccb19c0f108a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:39 +0000
Subject: [PATCH 09/43] fix: project sources that differ only in their
 extension get separate outputs

---
 crates/decy/src/main.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 7e09c6c..1cba58b 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -698,6 +698,23 @@ fn diff_test_file(input: PathBuf, timeout_secs: u64) -> Result<()> {
     Ok(())
 }
 
+/// Output of each source that cannot have the usual one (extension `.rs`) because another source
+/// already does (`a.c` and `a.cpp`): the full name plus `.rs`.
+fn renamed_outputs(c_files: &[PathBuf]) -> std::collections::HashMap<PathBuf, PathBuf> {
+    let mut taken = std::collections::HashSet::new();
+    let mut renamed = std::collections::HashMap::new();
+    for file in c_files {
+        let mut output = file.with_extension("rs");
+        let mut name = file.clone().into_os_string();
+        while !taken.insert(output.clone()) {
+            name.push(".rs");
+            output = PathBuf::from(&name);
+            renamed.insert(file.clone(), output.clone());
+        }
+    }
+    renamed
+}
+
 #[allow(clippy::too_many_arguments)]
 fn transpile_project(
     input_dir: PathBuf,
@@ -763,6 +780,8 @@ fn transpile_project(
         println!();
     }
 
+    let renamed = renamed_outputs(&c_files);
+
     // Initialize cache (unless dry-run)
     let cache_dir = input_dir.join(".decy").join("cache");
     if !dry_run {
@@ -810,11 +829,17 @@ fn transpile_project(
         let relative_path = file_path.strip_prefix(&input_dir).unwrap_or(&file_path);
         pb.set_message(format!("Transpiling {}", relative_path.display()));
 
+        // Compute output path (preserve directory structure)
+        let output_path = output_dir.join(relative_path).with_extension("rs");
+        let output_path = match renamed.get(&file_path).and_then(|path| path.file_name()) {
+            Some(name) => output_path.with_file_name(name),
+            None => output_path,
+        };
+
         // Check cache
         if use_cache {
             if let Some(cached) = cache.get(&file_path) {
                 // The output may be gone, or incomplete after an interrupted run
-                let output_path = output_dir.join(relative_path).with_extension("rs");
                 if fs::read(&output_path).ok().as_deref() != Some(cached.rust_code.as_bytes()) {
                     if let Some(parent) = output_path.parent() {
                         fs::create_dir_all(parent)?;
@@ -852,9 +877,6 @@ fn transpile_project(
 
         total_lines += rust_code.lines().count();
 
-        // Compute output path (preserve directory structure)
-        let output_path = output_dir.join(relative_path).with_extension("rs");
-
         // Create parent directory if needed
         if let Some(parent) = output_path.parent() {
             fs::create_dir_all(parent)?;
-- 
2.43.0


From 635d45cdaf91d21cbc8573b9cb4847b81923671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 10/43] fix: transpile-project resolves includes next to each
 file and notices header and concurrent edits

---
 crates/decy-core/src/lib.rs | 67 +++++++++++++++++++++++++++++++------
 crates/decy/src/main.rs     | 11 +++---
 2 files changed, 64 insertions(+), 14 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 3e2b331..c52f767 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -405,13 +405,17 @@ impl TranspilationCache {
     ///
     /// Returns a 64-character hex string.
     pub fn compute_hash(&self, path: &Path) -> Result<String> {
-        use sha2::{Digest, Sha256};
-
         let content = std::fs::read(path)
             .with_context(|| format!("Failed to read file for hashing: {}", path.display()))?;
 
+        Self::hash_content(&content)
+    }
+
+    fn hash_content(content: &[u8]) -> Result<String> {
+        use sha2::{Digest, Sha256};
+
         let mut hasher = Sha256::new();
-        hasher.update(&content);
+        hasher.update(content);
         let result = hasher.finalize();
 
         Ok(format!("{:x}", result))
@@ -435,6 +439,19 @@ impl TranspilationCache {
             };
         }
 
+        self.insert_snapshot(path, transpiled, SourceSnapshot { hash, dependency_hashes });
+    }
+
+    /// Insert a transpiled file made from the content in `snapshot`.
+    ///
+    /// Unlike [`insert`](Self::insert), this notices an edit made while transpiling.
+    pub fn insert_snapshot(
+        &mut self,
+        path: &Path,
+        transpiled: &TranspiledFile,
+        snapshot: SourceSnapshot,
+    ) {
+        let SourceSnapshot { hash, dependency_hashes } = snapshot;
         let entry = CacheEntry { hash, transpiled: transpiled.clone(), dependency_hashes };
 
         self.entries.insert(path.to_path_buf(), entry);
@@ -1646,6 +1663,35 @@ pub fn transpile_file(path: &Path, _context: &ProjectContext) -> Result<Transpil
     ))
 }
 
+/// The content that a translation is made from: a source file and the headers it includes.
+#[derive(Debug, Clone)]
+pub struct SourceSnapshot {
+    hash: String,
+    dependency_hashes: HashMap<PathBuf, String>,
+}
+
+impl SourceSnapshot {
+    /// Record `c_code`, read from `path`, and the headers as they are now.
+    pub fn take(path: &Path, c_code: &str) -> Result<Self> {
+        let mut headers = Vec::new();
+        collect_headers(path, c_code, &mut std::collections::HashSet::new(), &mut headers)?;
+        let hash = TranspilationCache::hash_content(c_code.as_bytes())?;
+        let mut dependency_hashes = HashMap::new();
+        for (header, code) in headers {
+            let header_hash = TranspilationCache::hash_content(code.as_bytes())?;
+            dependency_hashes.insert(header, header_hash);
+        }
+        Ok(Self { hash, dependency_hashes })
+    }
+
+    /// The headers of this snapshot.
+    pub fn dependencies(&self) -> Vec<PathBuf> {
+        let mut dependencies: Vec<PathBuf> = self.dependency_hashes.keys().cloned().collect();
+        dependencies.sort();
+        dependencies
+    }
+}
+
 /// Extract dependencies from #include directives in C code.
 ///
 /// This is a simplified implementation that detects #include directives
@@ -1654,17 +1700,18 @@ pub fn transpile_file(path: &Path, _context: &ProjectContext) -> Result<Transpil
 /// Headers are followed like transpilation does, so the result holds every local file that the
 /// translation depends on.
 fn extract_dependencies(source_path: &Path, c_code: &str) -> Result<Vec<PathBuf>> {
-    let mut dependencies = Vec::new();
-    let mut visited = std::collections::HashSet::new();
-    collect_dependencies(source_path, c_code, &mut visited, &mut dependencies)?;
+    let mut headers = Vec::new();
+    collect_headers(source_path, c_code, &mut std::collections::HashSet::new(), &mut headers)?;
+    let dependencies = headers.into_iter().map(|(header, _)| header).collect();
+
     Ok(dependencies)
 }
 
-fn collect_dependencies(
+fn collect_headers(
     source_path: &Path,
     c_code: &str,
     visited: &mut std::collections::HashSet<PathBuf>,
-    dependencies: &mut Vec<PathBuf>,
+    headers: &mut Vec<(PathBuf, String)>,
 ) -> Result<()> {
     let source_dir = source_path
         .parent()
@@ -1686,8 +1733,8 @@ fn collect_dependencies(
                     let header_code = std::fs::read_to_string(&header_path).with_context(|| {
                         format!("Failed to find include file: {}", header_path.display())
                     })?;
-                    collect_dependencies(&header_path, &header_code, visited, dependencies)?;
-                    dependencies.push(header_path);
+                    collect_headers(&header_path, &header_code, visited, headers)?;
+                    headers.push((header_path, header_code));
                 }
             }
         }
diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 1cba58b..f255393 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -871,8 +871,11 @@ fn transpile_project(
             continue;
         }
 
+        // Note the headers before transpiling, so that an edit from now on is seen as a change
+        let snapshot = decy_core::SourceSnapshot::take(&file_path, &c_code);
+
         // Transpile
-        let rust_code = decy_core::transpile(&c_code)
+        let rust_code = decy_core::transpile_with_includes(&c_code, file_path.parent())
             .with_context(|| format!("Failed to transpile {}", file_path.display()))?;
 
         total_lines += rust_code.lines().count();
@@ -891,15 +894,15 @@ fn transpile_project(
         }
 
         // Update cache
-        if use_cache {
+        if let (true, Ok(snapshot)) = (use_cache, snapshot) {
             let transpiled = decy_core::TranspiledFile {
                 source_path: file_path.clone(),
                 rust_code: rust_code.clone(),
-                dependencies: vec![], // Would be populated by actual parser
+                dependencies: snapshot.dependencies(),
                 functions_exported: vec![], // Would be populated by actual parser
                 ffi_declarations: String::new(), // Would be populated by actual parser
             };
-            cache.insert(&file_path, &transpiled);
+            cache.insert_snapshot(&file_path, &transpiled, snapshot);
         }
 
         transpiled_count += 1;
-- 
2.43.0


From d68198dadf56fe1c7053115c691a76a0c53859f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:27 +0000
Subject: [PATCH 11/43] fix: cache saves from several threads use separate
 temporary files; missing headers are no dependency

---
 crates/decy-core/src/lib.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index c52f767..ea399c5 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -503,7 +503,10 @@ impl TranspilationCache {
             serde_json::to_string_pretty(&self.entries).context("Failed to serialize cache")?;
 
         // Write next to the old cache and swap, so that a crash leaves one or the other
-        let temp_file = cache_dir.join(format!("cache.json.{}.tmp", std::process::id()));
+        static SAVES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
+        let save_id = SAVES.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
+        let temp_name = format!("cache.json.{}.{}.tmp", std::process::id(), save_id);
+        let temp_file = cache_dir.join(temp_name);
         let written = std::fs::write(&temp_file, json)
             .and_then(|()| std::fs::File::open(&temp_file)?.sync_all())
             .and_then(|()| std::fs::rename(&temp_file, &cache_file));
@@ -1678,6 +1681,9 @@ impl SourceSnapshot {
         let hash = TranspilationCache::hash_content(c_code.as_bytes())?;
         let mut dependency_hashes = HashMap::new();
         for (header, code) in headers {
+            let code = code.ok_or_else(|| {
+                anyhow::anyhow!("Failed to find include file: {}", header.display())
+            })?;
             let header_hash = TranspilationCache::hash_content(code.as_bytes())?;
             dependency_hashes.insert(header, header_hash);
         }
@@ -1702,16 +1708,18 @@ impl SourceSnapshot {
 fn extract_dependencies(source_path: &Path, c_code: &str) -> Result<Vec<PathBuf>> {
     let mut headers = Vec::new();
     collect_headers(source_path, c_code, &mut std::collections::HashSet::new(), &mut headers)?;
-    let dependencies = headers.into_iter().map(|(header, _)| header).collect();
+    let found = headers.into_iter().filter(|(_, code)| code.is_some());
+    let dependencies = found.map(|(header, _)| header).collect();
 
     Ok(dependencies)
 }
 
+/// Headers that do not exist are listed without content.
 fn collect_headers(
     source_path: &Path,
     c_code: &str,
     visited: &mut std::collections::HashSet<PathBuf>,
-    headers: &mut Vec<(PathBuf, String)>,
+    headers: &mut Vec<(PathBuf, Option<String>)>,
 ) -> Result<()> {
     let source_dir = source_path
         .parent()
@@ -1730,11 +1738,15 @@ fn collect_headers(
                     if !visited.insert(header_key) {
                         continue;
                     }
+                    if !header_path.try_exists()? {
+                        headers.push((header_path, None));
+                        continue;
+                    }
                     let header_code = std::fs::read_to_string(&header_path).with_context(|| {
-                        format!("Failed to find include file: {}", header_path.display())
+                        format!("Failed to read include file: {}", header_path.display())
                     })?;
                     collect_headers(&header_path, &header_code, visited, headers)?;
-                    headers.push((header_path, header_code));
+                    headers.push((header_path, Some(header_code)));
                 }
             }
         }
-- 
2.43.0


From 1ea92f6a9e525d597c89f1b76f45fd0b9b043fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:11 +0000
Subject: [PATCH 12/43] fix: compile checks no longer share or leave behind
 scratch files

verify_compilation named its scratch files by the clock alone and the two
decy-oracle checks used one name pattern with separate counters, so checks
running at the same time could judge each other's text. A failed write or a
compiler that cannot be started left the scratch file behind.
---
 crates/decy-oracle/src/trace_verifier.rs | 33 ++++++++++--------
 crates/decy-oracle/src/verification.rs   | 44 +++++++++++++-----------
 crates/decy-verify/src/lib.rs            | 42 ++++++++++++----------
 3 files changed, 67 insertions(+), 52 deletions(-)

diff --git a/crates/decy-oracle/src/trace_verifier.rs b/crates/decy-oracle/src/trace_verifier.rs
index 5e112ea..c78a43b 100644
--- a/crates/decy-oracle/src/trace_verifier.rs
+++ b/crates/decy-oracle/src/trace_verifier.rs
@@ -151,27 +151,32 @@ impl TraceVerifier {
         let unique_id = format!("{}_{}", std::process::id(), counter);
 
         let temp_dir = std::env::temp_dir();
-        let rust_path = temp_dir.join(format!("decy_verify_{}.rs", unique_id));
+        let rust_path = temp_dir.join(format!("decy_trace_verify_{}.rs", unique_id));
 
         // Write Rust code to scratch file
         let mut file = std::fs::File::create(&rust_path)
             .map_err(|e| format!("Failed to create temp file: {}", e))?;
-        file.write_all(rust_code.as_bytes())
-            .map_err(|e| format!("Failed to write temp file: {}", e))?;
+        let written = file
+            .write_all(rust_code.as_bytes())
+            .map_err(|e| format!("Failed to write temp file: {}", e));
 
         // Run rustc --emit=metadata (fast check without codegen)
-        let output = Command::new("rustc")
-            .arg("--emit=metadata")
-            .arg("--edition=2021")
-            .arg("-o")
-            .arg(temp_dir.join(format!("decy_verify_{}.rmeta", unique_id)))
-            .arg(&rust_path)
-            .output()
-            .map_err(|e| format!("Failed to run rustc: {}", e))?;
-
-        // Clean up
+        let output = written.and_then(|()| {
+            Command::new("rustc")
+                .arg("--emit=metadata")
+                .arg("--edition=2021")
+                .arg("-o")
+                .arg(temp_dir.join(format!("decy_trace_verify_{}.rmeta", unique_id)))
+                .arg(&rust_path)
+                .output()
+                .map_err(|e| format!("Failed to run rustc: {}", e))
+        });
+
+        // Clean up, also when writing or running rustc failed
         let _ = std::fs::remove_file(&rust_path);
-        let _ = std::fs::remove_file(temp_dir.join(format!("decy_verify_{}.rmeta", unique_id)));
+        let _ =
+            std::fs::remove_file(temp_dir.join(format!("decy_trace_verify_{}.rmeta", unique_id)));
+        let output = output?;
 
         if output.status.success() {
             Ok(())
diff --git a/crates/decy-oracle/src/verification.rs b/crates/decy-oracle/src/verification.rs
index d536429..d2e93a1 100644
--- a/crates/decy-oracle/src/verification.rs
+++ b/crates/decy-oracle/src/verification.rs
@@ -172,37 +172,41 @@ pub fn check_rust_compilation(rust_code: &str, config: &VerificationConfig) -> R
     // Write code to scratch file
     let mut file = std::fs::File::create(&temp_file)
         .map_err(|e| format!("Failed to create temp file: {}", e))?;
-    file.write_all(rust_code.as_bytes())
-        .map_err(|e| format!("Failed to write temp file: {}", e))?;
+    let written = file
+        .write_all(rust_code.as_bytes())
+        .map_err(|e| format!("Failed to write temp file: {}", e));
 
     // Drop the file handle to ensure it's flushed
     drop(file);
 
     // Run rustc check — emit metadata only (faster than full codegen)
     // Allow warnings but catch errors
-    let output = Command::new("rustc")
-        .args([
-            "--edition",
-            "2021",
-            "--crate-type",
-            "lib",
-            "--emit",
-            "metadata",
-            "-A",
-            "warnings", // Allow warnings, only catch errors
-            "-o",
-        ])
-        .arg(&temp_output)
-        .arg(&temp_file)
-        .output()
-        .map_err(|e| format!("Failed to run rustc: {}", e))?;
-
-    // Remove scratch files
+    let output = written.and_then(|()| {
+        Command::new("rustc")
+            .args([
+                "--edition",
+                "2021",
+                "--crate-type",
+                "lib",
+                "--emit",
+                "metadata",
+                "-A",
+                "warnings", // Allow warnings, only catch errors
+                "-o",
+            ])
+            .arg(&temp_output)
+            .arg(&temp_file)
+            .output()
+            .map_err(|e| format!("Failed to run rustc: {}", e))
+    });
+
+    // Remove scratch files, also when writing them or running rustc failed
     let _ = std::fs::remove_file(&temp_file);
     let _ = std::fs::remove_file(&temp_output);
     // Also clean up any rmeta files that might have been created
     let rmeta_file = temp_dir.join(format!("libdecy_verify_{}.rmeta", unique_id));
     let _ = std::fs::remove_file(&rmeta_file);
+    let output = output?;
 
     if output.status.success() {
         Ok(())
diff --git a/crates/decy-verify/src/lib.rs b/crates/decy-verify/src/lib.rs
index c7a47f2..9db5f87 100644
--- a/crates/decy-verify/src/lib.rs
+++ b/crates/decy-verify/src/lib.rs
@@ -308,28 +308,34 @@ pub struct CompilationResult {
 /// ```
 pub fn verify_compilation(rust_code: &str) -> Result<CompilationResult> {
     use std::process::Command;
-    use std::time::{SystemTime, UNIX_EPOCH};
+    use std::sync::atomic::{AtomicU64, Ordering};
 
-    let unique_id = SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_nanos()).unwrap_or(0);
+    // Unique per call, also across threads and processes (a clock alone is not)
+    static COUNTER: AtomicU64 = AtomicU64::new(0);
+    let counter = COUNTER.fetch_add(1, Ordering::SeqCst);
+    let unique_id = format!("{}_{}", std::process::id(), counter);
     let temp_dir = std::env::temp_dir();
-    let temp_file = temp_dir.join(format!("decy_verify_{}.rs", unique_id));
-    let temp_output = temp_dir.join(format!("decy_verify_{}.rmeta", unique_id));
-
-    std::fs::write(&temp_file, rust_code)
-        .context("Failed to write temp file for compilation check")?;
-
-    let output = Command::new("rustc")
-        .arg("--emit=metadata")
-        .arg("--edition=2021")
-        .arg("-o")
-        .arg(&temp_output)
-        .arg(&temp_file)
-        .output()
-        .context("Failed to run rustc — is it installed?")?;
-
-    // Remove scratch files
+    let temp_file = temp_dir.join(format!("decy_compile_{}.rs", unique_id));
+    let temp_output = temp_dir.join(format!("decy_compile_{}.rmeta", unique_id));
+
+    let written = std::fs::write(&temp_file, rust_code)
+        .context("Failed to write temp file for compilation check");
+
+    let output = written.and_then(|()| {
+        Command::new("rustc")
+            .arg("--emit=metadata")
+            .arg("--edition=2021")
+            .arg("-o")
+            .arg(&temp_output)
+            .arg(&temp_file)
+            .output()
+            .context("Failed to run rustc — is it installed?")
+    });
+
+    // Remove scratch files, also when writing them or running rustc failed
     let _ = std::fs::remove_file(&temp_file);
     let _ = std::fs::remove_file(&temp_output);
+    let output = output?;
 
     let stderr = String::from_utf8_lossy(&output.stderr);
 
-- 
2.43.0


From 301af022b2c329ae42bac9a3eb63d8bc63337f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:11 +0000
Subject: [PATCH 13/43] fix: a test suite that cannot be read is not 'no tests'

run_test_suite treated a directory it could not stat or list as one without
tests, so a fix whose tests could not be run was still promoted.
---
 crates/decy-oracle/src/verification.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/decy-oracle/src/verification.rs b/crates/decy-oracle/src/verification.rs
index d2e93a1..545ab00 100644
--- a/crates/decy-oracle/src/verification.rs
+++ b/crates/decy-oracle/src/verification.rs
@@ -218,13 +218,19 @@ pub fn check_rust_compilation(rust_code: &str, config: &VerificationConfig) -> R
 
 /// Run test suite against transpiled code
 pub fn run_test_suite(test_path: &Path, _rust_code: &str) -> TestResult {
-    if !test_path.exists() {
-        return TestResult::NoTests;
+    // Tests that cannot be looked at are not the same as no tests
+    match std::fs::metadata(test_path) {
+        Ok(meta) if meta.is_dir() => {}
+        Ok(_) => return TestResult::NoTests,
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => return TestResult::NoTests,
+        Err(e) => return TestResult::ExecutionError(e.to_string()),
     }
 
     // Check for test files
-    let has_tests = test_path.is_dir()
-        && std::fs::read_dir(test_path).map(|entries| entries.count() > 0).unwrap_or(false);
+    let has_tests = match std::fs::read_dir(test_path) {
+        Ok(entries) => entries.count() > 0,
+        Err(e) => return TestResult::ExecutionError(e.to_string()),
+    };
 
     if !has_tests {
         return TestResult::NoTests;
@@ -232,7 +238,7 @@ pub fn run_test_suite(test_path: &Path, _rust_code: &str) -> TestResult {
 
     // Run tests using shell scripts or cargo test
     let test_script = test_path.join("run_tests.sh");
-    if test_script.exists() {
+    if test_script.try_exists().unwrap_or(true) {
         let output = Command::new("bash").arg(&test_script).output();
 
         match output {
-- 
2.43.0


From a6690410faea0501e2ac28abb86a87dbc9d276be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:42 +0000
Subject: [PATCH 14/43] fix: report a failure to print the translation

The last, unterminated line of the translation stayed in the buffer of
standard output; if it could not be written at exit, the command still
succeeded with a truncated output.
---
 crates/decy/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index f255393..dde7e45 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -477,6 +477,9 @@ fn transpile_file(
         None => {
             // Write to stdout
             print!("{}", rust_code);
+            // What is still buffered would be dropped silently at exit if it cannot be written
+            std::io::Write::flush(&mut std::io::stdout())
+                .context("Failed to write to standard output")?;
 
             // Show oracle statistics if used
             if let Some(ref result) = oracle_result {
-- 
2.43.0


From d3c9fbf1cd6b5d73db7f7096ee024ee2c8c9ac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:42 +0000
Subject: [PATCH 15/43] fix: oracle training uses its own scratch files and
 removes them

Every run, a dry run included, left decy_train_<n>.rs in the temporary
directory, and two runs at once compiled each other's files.
---
 crates/decy/src/main.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index dde7e45..d867600 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -1525,16 +1525,19 @@ fn handle_oracle_train(corpus: PathBuf, tier: String, dry_run: bool) -> Result<(
         };
 
         let temp_dir = std::env::temp_dir();
-        let rust_path = temp_dir.join(format!("decy_train_{}.rs", files_processed));
-        std::fs::write(&rust_path, &transpiled.rust_code)?;
-
-        let output = std::process::Command::new("rustc")
-            .arg("--error-format=json")
-            .arg("--emit=metadata")
-            .arg("-o")
-            .arg("/dev/null")
-            .arg(&rust_path)
-            .output()?;
+        let rust_path =
+            temp_dir.join(format!("decy_train_{}_{}.rs", std::process::id(), files_processed));
+        let output = std::fs::write(&rust_path, &transpiled.rust_code).and_then(|()| {
+            std::process::Command::new("rustc")
+                .arg("--error-format=json")
+                .arg("--emit=metadata")
+                .arg("-o")
+                .arg("/dev/null")
+                .arg(&rust_path)
+                .output()
+        });
+        let _ = std::fs::remove_file(&rust_path);
+        let output = output?;
 
         let stderr = String::from_utf8_lossy(&output.stderr);
         let errors: Vec<&str> =
-- 
2.43.0


From 15825b029e1af9582fa70fbff1bb31fcefb7ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:42 +0000
Subject: [PATCH 16/43] fix: oracle commands report corpus directories they
 cannot list

validate, train and generate-traces silently left out every file below a
directory that could not be read, and visited the rest in directory order.
---
 crates/decy/src/main.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index d867600..d1dc58b 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -1339,8 +1339,11 @@ fn handle_oracle_validate(corpus: PathBuf) -> Result<()> {
     }
 
     let c_files: Vec<_> = walkdir::WalkDir::new(&corpus)
+        .sort_by_file_name()
+        .into_iter()
+        .collect::<walkdir::Result<Vec<_>>>()
+        .with_context(|| format!("Failed to list {}", corpus.display()))?
         .into_iter()
-        .filter_map(|e| e.ok())
         .filter(|e| e.path().extension().and_then(|s| s.to_str()) == Some("c"))
         .collect();
 
@@ -1484,8 +1487,11 @@ fn handle_oracle_train(corpus: PathBuf, tier: String, dry_run: bool) -> Result<(
     }
 
     let c_files: Vec<_> = walkdir::WalkDir::new(&corpus)
+        .sort_by_file_name()
+        .into_iter()
+        .collect::<walkdir::Result<Vec<_>>>()
+        .with_context(|| format!("Failed to list {}", corpus.display()))?
         .into_iter()
-        .filter_map(|e| e.ok())
         .filter(|e| e.path().extension().map(|ext| ext == "c").unwrap_or(false))
         .collect();
 
@@ -1612,8 +1618,11 @@ fn handle_oracle_generate_traces(
     };
 
     let c_files: Vec<_> = walkdir::WalkDir::new(&corpus)
+        .sort_by_file_name()
+        .into_iter()
+        .collect::<walkdir::Result<Vec<_>>>()
+        .with_context(|| format!("Failed to list {}", corpus.display()))?
         .into_iter()
-        .filter_map(|e| e.ok())
         .filter(|e| e.path().extension().map(|ext| ext == "c").unwrap_or(false))
         .collect();
 
-- 
2.43.0


From e918d0e29cab713d1b8ad9ab74681893a76d0af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:42 +0000
Subject: [PATCH 17/43] fix: a golden trace pairs the C text with its own
 translation

generate-traces read each source twice, so a file edited in between gave a
trace whose two sides do not belong together.
---
 crates/decy/src/main.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index d1dc58b..f418c02 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -1653,8 +1653,6 @@ fn handle_oracle_generate_traces(
     let mut dataset = GoldenTraceDataset::new();
     let mut verifier = TraceVerifier::new();
 
-    let context = decy_core::ProjectContext::default();
-
     for entry in &c_files {
         let c_path = entry.path();
         let filename = c_path.file_name().and_then(|s| s.to_str()).unwrap_or("unknown");
@@ -1670,8 +1668,9 @@ fn handle_oracle_generate_traces(
             }
         };
 
-        let transpiled = match decy_core::transpile_file(c_path, &context) {
-            Ok(t) => t,
+        // Transpile the text just read: reading the file again may give another one
+        let rust_code = match decy_core::transpile_with_includes(&c_code, c_path.parent()) {
+            Ok(code) => code,
             Err(e) => {
                 println!("  ⚠ Transpile failed: {}", e);
                 traces_failed += 1;
@@ -1679,8 +1678,7 @@ fn handle_oracle_generate_traces(
             }
         };
 
-        let trace =
-            GoldenTrace::new(c_code.clone(), transpiled.rust_code.clone(), trace_tier, filename);
+        let trace = GoldenTrace::new(c_code.clone(), rust_code.clone(), trace_tier, filename);
 
         let result = verifier.verify_trace(&trace);
 
@@ -1688,8 +1686,7 @@ fn handle_oracle_generate_traces(
             println!("  ✓ Verified - generating trace");
             traces_verified += 1;
 
-            let explanation =
-                generate_safety_explanation(&c_code, &transpiled.rust_code, trace_tier);
+            let explanation = generate_safety_explanation(&c_code, &rust_code, trace_tier);
             let trace_with_explanation = trace.with_safety_explanation(&explanation);
 
             dataset.add_trace(trace_with_explanation);
-- 
2.43.0


From b3ab51686dadf8db3be90faf98a33216908ecf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:58 +0000
Subject: [PATCH 18/43] fix: transpile --trace and --oracle resolve includes
 next to the source

Both resolved #include against the working directory, so the same file gave
another translation (or none) than without the option.
---
 crates/decy-core/src/lib.rs           | 14 +++++++++++++-
 crates/decy/src/main.rs               |  5 +++--
 crates/decy/src/oracle_integration.rs | 16 +++++++++++++---
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index ea399c5..bdce350 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -749,6 +749,18 @@ pub fn transpile(c_code: &str) -> Result<String> {
 /// ```
 pub fn transpile_with_trace(c_code: &str) -> Result<(String, trace::TraceCollector)> {
     contract_pre_configuration!();
+    transpile_with_trace_includes(c_code, None)
+}
+
+/// Like [`transpile_with_trace`], resolving `#include`s relative to `base_dir`.
+///
+/// # Errors
+///
+/// Returns an error if transpilation fails.
+pub fn transpile_with_trace_includes(
+    c_code: &str,
+    base_dir: Option<&Path>,
+) -> Result<(String, trace::TraceCollector)> {
     use trace::{DecisionType, PipelineStage, TraceCollector, TraceEntry};
 
     let mut collector = TraceCollector::new();
@@ -765,7 +777,7 @@ pub fn transpile_with_trace(c_code: &str) -> Result<(String, trace::TraceCollect
     });
 
     // Transpile normally
-    let rust_code = transpile(c_code)?;
+    let rust_code = transpile_with_includes(c_code, base_dir)?;
 
     // Record completion
     collector.record(TraceEntry {
diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index f418c02..3112de3 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -404,8 +404,9 @@ fn transpile_file(
 
     // Transpile - use oracle if enabled
     let (rust_code, oracle_result) = if oracle_opts.should_use_oracle() {
+        let opts = oracle_opts.clone().with_base_dir(base_dir);
         let result =
-            oracle_integration::transpile_with_oracle(&c_code, oracle_opts).with_context(|| {
+            oracle_integration::transpile_with_oracle(&c_code, &opts).with_context(|| {
                 format!("Oracle-assisted transpilation failed for {}", input.display())
             })?;
         let code = result.rust_code.clone();
@@ -413,7 +414,7 @@ fn transpile_file(
     } else if trace_enabled {
         // DECY-193: Transpile with decision tracing
         let (code, trace_collector) =
-            decy_core::transpile_with_trace(&c_code).with_context(|| {
+            decy_core::transpile_with_trace_includes(&c_code, base_dir).with_context(|| {
                 format!(
                     "Failed to transpile {}\n\nTry: Check if the C code has syntax errors\n  or: Preprocess the file first: gcc -E {} -o preprocessed.c",
                     input.display(),
diff --git a/crates/decy/src/oracle_integration.rs b/crates/decy/src/oracle_integration.rs
index b9735b3..4b07738 100644
--- a/crates/decy/src/oracle_integration.rs
+++ b/crates/decy/src/oracle_integration.rs
@@ -32,6 +32,8 @@ pub struct OracleOptions {
     pub import_patterns_path: Option<std::path::PathBuf>,
     /// Report format (json, markdown, prometheus)
     pub report_format: Option<String>,
+    /// Directory that `#include`s are resolved against
+    pub base_dir: Option<std::path::PathBuf>,
 }
 
 impl OracleOptions {
@@ -46,6 +48,7 @@ impl OracleOptions {
             capture_patterns: false,
             import_patterns_path: None,
             report_format: None,
+            base_dir: None,
         }
     }
 
@@ -67,6 +70,12 @@ impl OracleOptions {
         self
     }
 
+    /// Create options with the directory that `#include`s are resolved against
+    pub fn with_base_dir(mut self, base_dir: Option<&std::path::Path>) -> Self {
+        self.base_dir = base_dir.map(|dir| dir.to_path_buf());
+        self
+    }
+
     /// Check if oracle is enabled and should be used
     pub fn should_use_oracle(&self) -> bool {
         self.enabled
@@ -171,7 +180,8 @@ pub fn transpile_with_oracle(
     };
 
     // Initial transpilation
-    let mut rust_code = decy_core::transpile(c_code).context("Initial transpilation failed")?;
+    let mut rust_code = decy_core::transpile_with_includes(c_code, options.base_dir.as_deref())
+        .context("Initial transpilation failed")?;
 
     let mut result = OracleTranspileResult {
         rust_code: rust_code.clone(),
@@ -263,10 +273,10 @@ pub fn transpile_with_oracle(
 #[cfg(not(feature = "citl"))]
 pub fn transpile_with_oracle(
     c_code: &str,
-    _options: &OracleOptions,
+    options: &OracleOptions,
 ) -> anyhow::Result<OracleTranspileResult> {
     contract_pre_configuration!();
-    let rust_code = decy_core::transpile(c_code)?;
+    let rust_code = decy_core::transpile_with_includes(c_code, options.base_dir.as_deref())?;
     Ok(OracleTranspileResult {
         rust_code,
         oracle_queries: 0,
-- 
2.43.0


From a56a1d15f4a1789ee77a07c0a6d2e2b23e66e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:41 +0000
Subject: [PATCH 19/43] fix: corpus analysis reports directories it cannot list

---
 crates/decy-oracle/src/diversity.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/decy-oracle/src/diversity.rs b/crates/decy-oracle/src/diversity.rs
index 90a95aa..58e346e 100644
--- a/crates/decy-oracle/src/diversity.rs
+++ b/crates/decy-oracle/src/diversity.rs
@@ -382,7 +382,8 @@ pub fn analyze_corpus(path: &Path) -> Result<ErrorHistogram, std::io::Error> {
     // Walk directory and count C files
     for entry in walkdir::WalkDir::new(path)
         .into_iter()
-        .filter_map(|e| e.ok())
+        .collect::<walkdir::Result<Vec<_>>>()?
+        .into_iter()
         .filter(|e| e.path().extension().and_then(|s| s.to_str()) == Some("c"))
     {
         histogram.total_files += 1;
-- 
2.43.0


From 3bd954b76774565f52b40354817d05e747c22272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:41 +0000
Subject: [PATCH 20/43] fix: reports list their entries in a fixed order

Oracle statistics, metrics, dataset cards and the validation report listed
entries in hash order, so the same input gave another text in every process.
---
 crates/decy-oracle/src/bootstrap.rs    | 2 +-
 crates/decy-oracle/src/dataset.rs      | 4 ++--
 crates/decy-oracle/src/diversity.rs    | 5 ++++-
 crates/decy-oracle/src/golden_trace.rs | 2 ++
 crates/decy-oracle/src/metrics.rs      | 4 ++--
 crates/decy/src/main.rs                | 8 ++++++--
 6 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/crates/decy-oracle/src/bootstrap.rs b/crates/decy-oracle/src/bootstrap.rs
index 36e7f4c..9841b35 100644
--- a/crates/decy-oracle/src/bootstrap.rs
+++ b/crates/decy-oracle/src/bootstrap.rs
@@ -289,7 +289,7 @@ impl BootstrapStats {
 
         s.push_str("\nBy Decision Type:\n");
         let mut decisions: Vec<_> = self.by_decision.iter().collect();
-        decisions.sort_by_key(|(_, v)| std::cmp::Reverse(*v));
+        decisions.sort_by_key(|(k, v)| (std::cmp::Reverse(*v), *k));
         for (decision, count) in decisions {
             s.push_str(&format!("  {}: {}\n", decision, count));
         }
diff --git a/crates/decy-oracle/src/dataset.rs b/crates/decy-oracle/src/dataset.rs
index b9c4fa2..0e58f7b 100644
--- a/crates/decy-oracle/src/dataset.rs
+++ b/crates/decy-oracle/src/dataset.rs
@@ -381,7 +381,7 @@ impl DatasetStats {
         s.push_str("| Decision | Count |\n");
         s.push_str("|----------|-------|\n");
         let mut decisions: Vec<_> = self.by_decision.iter().collect();
-        decisions.sort_by_key(|(_, v)| std::cmp::Reverse(*v));
+        decisions.sort_by_key(|(k, v)| (std::cmp::Reverse(*v), *k));
         for (decision, count) in decisions {
             s.push_str(&format!("| {} | {} |\n", decision, count));
         }
@@ -390,7 +390,7 @@ impl DatasetStats {
         s.push_str("| Source | Count |\n");
         s.push_str("|--------|-------|\n");
         let mut sources: Vec<_> = self.by_source.iter().collect();
-        sources.sort_by_key(|(_, v)| std::cmp::Reverse(*v));
+        sources.sort_by_key(|(k, v)| (std::cmp::Reverse(*v), *k));
         for (source, count) in sources {
             s.push_str(&format!("| {} | {} |\n", source, count));
         }
diff --git a/crates/decy-oracle/src/diversity.rs b/crates/decy-oracle/src/diversity.rs
index 58e346e..8160fd8 100644
--- a/crates/decy-oracle/src/diversity.rs
+++ b/crates/decy-oracle/src/diversity.rs
@@ -242,7 +242,10 @@ fn kl_divergence_safe(
     let epsilon = 1e-10; // Smoothing factor
     let mut kl = 0.0;
 
-    for key in all_keys {
+    // In a fixed order: rounding makes the sum depend on it
+    let mut keys: Vec<_> = all_keys.iter().collect();
+    keys.sort();
+    for key in keys {
         let p_val = p.get(key).copied().unwrap_or(0.0);
         let q_val = q.get(key).copied().unwrap_or(0.0);
 
diff --git a/crates/decy-oracle/src/golden_trace.rs b/crates/decy-oracle/src/golden_trace.rs
index 3b81415..c9defd6 100644
--- a/crates/decy-oracle/src/golden_trace.rs
+++ b/crates/decy-oracle/src/golden_trace.rs
@@ -449,6 +449,8 @@ dataset = load_dataset("paiml/decy-golden-traces")
             self.stats
                 .traces_by_transformation
                 .iter()
+                .collect::<std::collections::BTreeMap<_, _>>()
+                .into_iter()
                 .map(|(k, v)| format!("- **{}**: {}", k, v))
                 .collect::<Vec<_>>()
                 .join("\n"),
diff --git a/crates/decy-oracle/src/metrics.rs b/crates/decy-oracle/src/metrics.rs
index 070c0b0..0e9a7ac 100644
--- a/crates/decy-oracle/src/metrics.rs
+++ b/crates/decy-oracle/src/metrics.rs
@@ -1,7 +1,7 @@
 //! Oracle metrics for observability
 
 use serde::{Deserialize, Serialize};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// Metrics for oracle usage
 #[derive(Debug, Clone, Default, Serialize, Deserialize)]
@@ -25,7 +25,7 @@ pub struct OracleMetrics {
     pub patterns_captured: u64,
 
     /// Per-error-code breakdown
-    pub by_error_code: HashMap<String, ErrorCodeMetrics>,
+    pub by_error_code: BTreeMap<String, ErrorCodeMetrics>,
 }
 
 /// Per-error-code metrics
diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 3112de3..18ed127 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -1333,7 +1333,9 @@ fn handle_oracle_validate(corpus: PathBuf) -> Result<()> {
 
     if !histogram.construct_coverage.is_empty() {
         println!("C Construct Coverage:");
-        for (construct, count) in &histogram.construct_coverage {
+        let mut constructs: Vec<_> = histogram.construct_coverage.iter().collect();
+        constructs.sort_by_key(|(construct, _)| format!("{:?}", construct));
+        for (construct, count) in constructs {
             println!("  {:?}: {}", construct, count);
         }
         println!();
@@ -1397,7 +1399,9 @@ fn handle_oracle_validate(corpus: PathBuf) -> Result<()> {
     if !error_histogram.by_error_code.is_empty() {
         println!();
         println!("Error Distribution:");
-        for (code, count) in &error_histogram.by_error_code {
+        let mut codes: Vec<_> = error_histogram.by_error_code.iter().collect();
+        codes.sort();
+        for (code, count) in codes {
             let category = decy_oracle::diversity::categorize_error(code);
             println!("  {}: {} ({:?})", code, count, category);
         }
-- 
2.43.0


From c87f6f41241a7e4e15919cb29c583b5bde77340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 21/43] fix: rollback goes to the version before the active one

It skipped the newest version instead of the active one, so a second rollback
"rolled back" to the active version itself, and a rollback could activate a
newer version or one that was refused activation for its quality. The history
also grew without bound while the oldest version was the active one.
---
 crates/decy-ownership/src/model_versioning.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/decy-ownership/src/model_versioning.rs b/crates/decy-ownership/src/model_versioning.rs
index 484a436..d973b18 100644
--- a/crates/decy-ownership/src/model_versioning.rs
+++ b/crates/decy-ownership/src/model_versioning.rs
@@ -366,14 +366,14 @@ impl ModelVersionManager {
         let current_idx = self.active_index.ok_or("No active version")?;
         let current_version = self.versions[current_idx].version.clone();
 
-        // Find previous non-rolled-back version
+        // Find previous non-rolled-back version that may be active
         let prev_idx = self
             .versions
             .iter()
             .enumerate()
+            .take(current_idx) // Only versions before the current one
             .rev()
-            .skip(1) // Skip current
-            .find(|(_, e)| !e.rolled_back)
+            .find(|(_, e)| !e.rolled_back && e.metrics.meets_thresholds(&self.thresholds))
             .map(|(i, _)| i)
             .ok_or("No previous version available for rollback")?;
 
@@ -443,6 +443,7 @@ impl ModelVersionManager {
         if let Some(target_entry) = self.versions.get_mut(target_idx) {
             target_entry.is_active = true;
             target_entry.rolled_back = false; // Clear previous rollback if any
+            target_entry.rollback_reason = None;
         }
         self.active_index = Some(target_idx);
 
@@ -564,9 +565,10 @@ impl ModelVersionManager {
 
     fn prune_history(&mut self) {
         while self.versions.len() > self.max_history {
-            // Don't remove active version
+            // Don't remove active version, but the oldest one after it
             if self.active_index == Some(0) {
-                break;
+                self.versions.remove(1);
+                continue;
             }
 
             self.versions.pop_front();
-- 
2.43.0


From 238b5b025acf705dfc2dc697171e84ebf36ad07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 22/43] fix: a promoted model is the active one

The pipeline reported Promoted although the version manager had refused to
activate the model, or to register it at all: after a rollback, or after one
model that was not activated, every further version number was already taken.
---
 crates/decy-ownership/src/model_versioning.rs | 15 ++++++++++++
 .../decy-ownership/src/retraining_pipeline.rs | 24 +++++++++++++++----
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/crates/decy-ownership/src/model_versioning.rs b/crates/decy-ownership/src/model_versioning.rs
index d973b18..7a047ce 100644
--- a/crates/decy-ownership/src/model_versioning.rs
+++ b/crates/decy-ownership/src/model_versioning.rs
@@ -354,6 +354,21 @@ impl ModelVersionManager {
         Ok(should_activate)
     }
 
+    /// Make a registered version the active one without rolling the current one back.
+    pub(crate) fn promote(&mut self, version: &ModelVersion) -> Result<(), String> {
+        let idx = self
+            .versions
+            .iter()
+            .position(|e| &e.version == version)
+            .ok_or_else(|| format!("Version {} not found", version))?;
+        if let Some(current) = self.active_index.and_then(|i| self.versions.get_mut(i)) {
+            current.is_active = false;
+        }
+        self.versions[idx].is_active = true;
+        self.active_index = Some(idx);
+        Ok(())
+    }
+
     /// Rollback to the previous version.
     pub fn rollback(&mut self, reason: impl Into<String>) -> Result<RollbackResult, String> {
         let reason = reason.into();
diff --git a/crates/decy-ownership/src/retraining_pipeline.rs b/crates/decy-ownership/src/retraining_pipeline.rs
index 4ad7fe2..259e702 100644
--- a/crates/decy-ownership/src/retraining_pipeline.rs
+++ b/crates/decy-ownership/src/retraining_pipeline.rs
@@ -429,9 +429,19 @@ impl<T: ModelTrainer> RetrainingPipeline<T> {
 
         // Promote new model
         let quality_metrics = metrics.to_quality_metrics();
+        if !quality_metrics.meets_thresholds(self.version_manager.thresholds()) {
+            let reason = format!(
+                "Metrics below the version manager's thresholds (F1 {:.2})",
+                metrics.f1_score
+            );
+            let result = RetrainingResult::QualityGateFailed { reason, metrics };
+            self.record_execution(timestamp, &result, samples.len());
+            return result;
+        }
         let next_version = self
             .version_manager
-            .active_version()
+            .versions()
+            .last()
             .map(|e| e.version.bump_minor())
             .unwrap_or_else(|| ModelVersion::new(1, 0, 0));
 
@@ -442,10 +452,16 @@ impl<T: ModelTrainer> RetrainingPipeline<T> {
             "models/latest.bin",
         );
 
-        // Try to register - ignore errors for simplicity
-        let _ = self.version_manager.register_version(entry);
+        // The gates above decided: activate it even if it is not better than the current one
+        let registered = self
+            .version_manager
+            .register_version(entry)
+            .and_then(|_| self.version_manager.promote(&next_version));
 
-        let result = RetrainingResult::Promoted { version: next_version, metrics };
+        let result = match registered {
+            Ok(()) => RetrainingResult::Promoted { version: next_version, metrics },
+            Err(error) => RetrainingResult::TrainingError { error },
+        };
         self.record_execution(timestamp, &result, samples.len());
         result
     }
-- 
2.43.0


From 9e37717eba3715f92d28c7252b0ca56f376746ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 23/43] fix: process_prediction says whether the sample is in
 the queue

It reported samples as queued that a full queue had dropped.
---
 crates/decy-ownership/src/active_learning.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/decy-ownership/src/active_learning.rs b/crates/decy-ownership/src/active_learning.rs
index 2bf9e64..bd46090 100644
--- a/crates/decy-ownership/src/active_learning.rs
+++ b/crates/decy-ownership/src/active_learning.rs
@@ -473,8 +473,9 @@ impl ActiveLearner {
         let queued = if uncertainty >= self.min_uncertainty {
             let sample =
                 UncertainSample::new(0, variable, features, prediction, uncertainty, strategy);
-            self.queue.enqueue(sample);
-            true
+            let id = self.queue.enqueue(sample);
+            // A full queue drops the sample with the lowest priority
+            self.queue.pending.iter().any(|s| s.id == id)
         } else {
             false
         };
-- 
2.43.0


From ccb7cb1a91e870234a3a9d4b0daa756e6167a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:11 +0000
Subject: [PATCH 24/43] fix: A/B and error reports do not depend on hash order
 or the clock

Entries and ties were listed in hash order, which also decided which features
and defects made it into the top lists; an experiment ended while the clock
showed the epoch or earlier was still reported as active.
---
 crates/decy-ownership/src/ab_testing.rs     |  6 ++++--
 crates/decy-ownership/src/error_tracking.rs | 20 ++++++++++++++------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/crates/decy-ownership/src/ab_testing.rs b/crates/decy-ownership/src/ab_testing.rs
index df53f3d..e76fb3f 100644
--- a/crates/decy-ownership/src/ab_testing.rs
+++ b/crates/decy-ownership/src/ab_testing.rs
@@ -218,7 +218,7 @@ impl ABExperiment {
             .duration_since(std::time::UNIX_EPOCH)
             .unwrap_or_default()
             .as_millis() as u64;
-        self.ended_at = now;
+        self.ended_at = now.max(1); // 0 means active
     }
 
     /// Check if experiment is active.
@@ -371,7 +371,9 @@ impl ABExperiment {
 
     fn format_distribution(&self, metrics: &VariantMetrics) -> String {
         let mut lines = Vec::new();
-        for (ownership, count) in &metrics.by_ownership {
+        let mut distribution: Vec<_> = metrics.by_ownership.iter().collect();
+        distribution.sort();
+        for (ownership, count) in distribution {
             let pct = if metrics.count > 0 {
                 (*count as f64 / metrics.count as f64) * 100.0
             } else {
diff --git a/crates/decy-ownership/src/error_tracking.rs b/crates/decy-ownership/src/error_tracking.rs
index fa1b3a2..b59d13c 100644
--- a/crates/decy-ownership/src/error_tracking.rs
+++ b/crates/decy-ownership/src/error_tracking.rs
@@ -291,8 +291,13 @@ impl ErrorTracker {
             });
         }
 
-        // Sort by suspiciousness (highest first)
-        results.sort_by(|a, b| b.score.partial_cmp(&a.score).unwrap_or(std::cmp::Ordering::Equal));
+        // Sort by suspiciousness (highest first), equal ones by name
+        results.sort_by(|a, b| {
+            b.score
+                .partial_cmp(&a.score)
+                .unwrap_or(std::cmp::Ordering::Equal)
+                .then_with(|| a.feature.cmp(&b.feature))
+        });
 
         results
     }
@@ -336,10 +341,13 @@ impl ErrorTracker {
 
     /// Get correlation between features and defects.
     pub fn feature_defect_correlation(&self) -> Vec<(String, String, u64)> {
-        self.feature_defect_stats
+        let mut pairs: Vec<_> = self
+            .feature_defect_stats
             .iter()
             .map(|((f, d), stats)| (f.clone(), d.clone(), stats.failure_count))
-            .collect()
+            .collect();
+        pairs.sort();
+        pairs
     }
 
     /// Generate improvement suggestions based on analysis.
@@ -367,7 +375,7 @@ impl ErrorTracker {
 
         // Suggest improvements for common defects
         let mut defects: Vec<_> = defect_dist.into_iter().collect();
-        defects.sort_by(|a, b| b.1.cmp(&a.1));
+        defects.sort_by(|a, b| b.1.cmp(&a.1).then_with(|| a.0.cmp(&b.0)));
 
         for (defect, count) in defects.iter().take(3) {
             if *count > 5 {
@@ -433,7 +441,7 @@ impl ErrorTracker {
         // Defect distribution
         report.push_str("### Defect Distribution\n\n");
         let mut defects: Vec<_> = defect_dist.into_iter().collect();
-        defects.sort_by(|a, b| b.1.cmp(&a.1));
+        defects.sort_by(|a, b| b.1.cmp(&a.1).then_with(|| a.0.cmp(&b.0)));
         for (defect, count) in defects.iter().take(5) {
             report.push_str(&format!(
                 "- {}: {} ({:.1}%)\n",
-- 
2.43.0


From 249f29c50eaba5a947647b4eba7f3019eab625f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:21 +0000
Subject: [PATCH 25/43] fix: an error tracker with recorded features can be
 saved as JSON

Its map keyed by (feature, defect) made serde_json fail.
---
 crates/decy-ownership/src/error_tracking.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/decy-ownership/src/error_tracking.rs b/crates/decy-ownership/src/error_tracking.rs
index b59d13c..757d735 100644
--- a/crates/decy-ownership/src/error_tracking.rs
+++ b/crates/decy-ownership/src/error_tracking.rs
@@ -181,6 +181,7 @@ pub struct ErrorTracker {
     /// Pattern statistics by defect category
     defect_stats: HashMap<String, PatternStats>,
     /// Pattern statistics by (feature, defect) combination
+    #[serde(with = "pair_keys")]
     feature_defect_stats: HashMap<(String, String), PatternStats>,
     /// Total successes (for Tarantula calculation)
     total_successes: u64,
@@ -190,6 +191,24 @@ pub struct ErrorTracker {
     next_id: u64,
 }
 
+/// Stores a map with pairs as keys as a list: JSON only has strings as keys.
+mod pair_keys {
+    use super::{HashMap, PatternStats};
+    use serde::{Deserialize, Deserializer, Serialize, Serializer};
+
+    type Map = HashMap<(String, String), PatternStats>;
+
+    pub fn serialize<S: Serializer>(map: &Map, serializer: S) -> Result<S::Ok, S::Error> {
+        let mut entries: Vec<_> = map.iter().collect();
+        entries.sort_by(|a, b| a.0.cmp(b.0));
+        entries.serialize(serializer)
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(deserializer: D) -> Result<Map, D::Error> {
+        Ok(Vec::<((String, String), PatternStats)>::deserialize(deserializer)?.into_iter().collect())
+    }
+}
+
 impl Default for ErrorTracker {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From a1ce2a0952e45f2a18068928d487f27587fc20fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:36 +0000
Subject: [PATCH 26/43] fix: traces of equal snippets get different ids

Two traces of the same text within one tick of the clock had the same
'unique' identifier.
---
 crates/decy-oracle/src/golden_trace.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/decy-oracle/src/golden_trace.rs b/crates/decy-oracle/src/golden_trace.rs
index c9defd6..2c1bac3 100644
--- a/crates/decy-oracle/src/golden_trace.rs
+++ b/crates/decy-oracle/src/golden_trace.rs
@@ -11,6 +11,7 @@
 use serde::{Deserialize, Serialize};
 use std::collections::HashMap;
 use std::path::Path;
+use std::sync::atomic::{AtomicU64, Ordering};
 
 /// A verified C→Rust training example
 #[derive(Debug, Clone, Serialize, Deserialize)]
@@ -219,6 +220,9 @@ impl GoldenTrace {
         c_snippet.hash(&mut hasher);
         rust_snippet.hash(&mut hasher);
         chrono::Utc::now().timestamp_nanos_opt().hash(&mut hasher);
+        // the clock may not have advanced since the last trace
+        static COUNTER: AtomicU64 = AtomicU64::new(0);
+        COUNTER.fetch_add(1, Ordering::Relaxed).hash(&mut hasher);
         let trace_id = format!("trace_{:016x}", hasher.finish());
 
         Self {
-- 
2.43.0


From 7440aa94dddd40ce99fae775159c6f23474f3dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:26 +0000
Subject: [PATCH 27/43] fix: list equally frequent error codes in a stable
 order in the compile metrics report

---
 crates/decy-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-core/src/metrics.rs b/crates/decy-core/src/metrics.rs
index baecd77..63c24e3 100644
--- a/crates/decy-core/src/metrics.rs
+++ b/crates/decy-core/src/metrics.rs
@@ -119,7 +119,7 @@ impl CompileMetrics {
             report.push_str("|------------|-------|\n");
 
             let mut sorted_errors: Vec<_> = self.error_counts.iter().collect();
-            sorted_errors.sort_by(|a, b| b.1.cmp(a.1));
+            sorted_errors.sort_by(|a, b| b.1.cmp(a.1).then_with(|| a.0.cmp(b.0)));
 
             for (code, count) in sorted_errors {
                 report.push_str(&format!("| {} | {} |\n", code, count));
-- 
2.43.0


From 10e84ce681ca5b8577122f1099105e0934860757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:26 +0000
Subject: [PATCH 28/43] fix: find the error code anywhere in a message, and
 survive non-ASCII text

---
 crates/decy-core/src/metrics.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/decy-core/src/metrics.rs b/crates/decy-core/src/metrics.rs
index 63c24e3..ba5f8fc 100644
--- a/crates/decy-core/src/metrics.rs
+++ b/crates/decy-core/src/metrics.rs
@@ -143,10 +143,11 @@ impl CompileMetrics {
 /// - "some unknown error" -> "UNKNOWN"
 fn extract_error_code(message: &str) -> String {
     // Pattern: E followed by 4 digits
-    if let Some(start) = message.find('E') {
-        let rest = &message[start..];
-        if rest.len() >= 5 && rest[1..5].chars().all(|c| c.is_ascii_digit()) {
-            return rest[..5].to_string();
+    for (start, _) in message.match_indices('E') {
+        if let Some(code) = message.get(start..start + 5) {
+            if code[1..].chars().all(|c| c.is_ascii_digit()) {
+                return code.to_string();
+            }
         }
     }
 
-- 
2.43.0


From 088effcce54b7bcbe598cf226cb2fc9e0341ed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:26 +0000
Subject: [PATCH 29/43] fix: dominant label of a tie does not depend on hash
 order

---
 crates/decy-ownership/src/training_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-ownership/src/training_data.rs b/crates/decy-ownership/src/training_data.rs
index b948142..04bbf97 100644
--- a/crates/decy-ownership/src/training_data.rs
+++ b/crates/decy-ownership/src/training_data.rs
@@ -128,7 +128,7 @@ impl DatasetStats {
     pub fn dominant_label(&self) -> Option<String> {
         self.label_distribution
             .iter()
-            .max_by_key(|(_, count)| *count)
+            .max_by(|a, b| a.1.cmp(b.1).then_with(|| b.0.cmp(a.0)))
             .map(|(label, _)| label.clone())
     }
 }
-- 
2.43.0


From 3446e8f85cd3f21cdebd31848df087453bc85acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:26 +0000
Subject: [PATCH 30/43] fix: a labeling batch larger than the queue no longer
 over-allocates

---
 crates/decy-ownership/src/active_learning.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-ownership/src/active_learning.rs b/crates/decy-ownership/src/active_learning.rs
index bd46090..039138a 100644
--- a/crates/decy-ownership/src/active_learning.rs
+++ b/crates/decy-ownership/src/active_learning.rs
@@ -336,7 +336,7 @@ impl SampleQueue {
 
     /// Get top N samples for batch labeling.
     pub fn batch_for_labeling(&mut self, n: usize) -> Vec<UncertainSample> {
-        let mut batch = Vec::with_capacity(n);
+        let mut batch = Vec::with_capacity(n.min(self.pending.len()));
         for _ in 0..n {
             if let Some(sample) = self.pending.pop_front() {
                 batch.push(sample);
-- 
2.43.0


From 7d8071639770fdd064083a5bf4cfc8d7edfddc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:23 +0000
Subject: [PATCH 31/43] fix: report a mutex locked again while held, and lock
 findings in a stable order

---
 crates/decy-analyzer/src/lock_analysis.rs | 31 +++++++++++++++++------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/crates/decy-analyzer/src/lock_analysis.rs b/crates/decy-analyzer/src/lock_analysis.rs
index 11c86e5..9c23046 100644
--- a/crates/decy-analyzer/src/lock_analysis.rs
+++ b/crates/decy-analyzer/src/lock_analysis.rs
@@ -37,12 +37,17 @@ impl LockDataMapping {
 
     /// Get all data variables protected by a lock.
     pub fn get_protected_data(&self, lock: &str) -> Vec<String> {
-        self.lock_to_data.get(lock).map(|vars| vars.iter().cloned().collect()).unwrap_or_default()
+        let mut data: Vec<String> =
+            self.lock_to_data.get(lock).map(|vars| vars.iter().cloned().collect()).unwrap_or_default();
+        data.sort();
+        data
     }
 
     /// Get all locks tracked in this mapping.
     pub fn get_locks(&self) -> Vec<String> {
-        self.lock_to_data.keys().cloned().collect()
+        let mut locks: Vec<String> = self.lock_to_data.keys().cloned().collect();
+        locks.sort();
+        locks
     }
 
     /// Add a data variable to a lock's protection set.
@@ -283,7 +288,10 @@ impl LockAnalyzer {
         for (idx, stmt) in body.iter().enumerate() {
             // Check for lock calls
             if let Some(lock_name) = Self::extract_lock_call(stmt) {
-                active_locks.insert(lock_name, idx);
+                if let Some(start_idx) = active_locks.insert(lock_name.clone(), idx) {
+                    // Locked again while still held: the first lock is never released
+                    violations.push(Self::unmatched_lock(&lock_name, start_idx));
+                }
             }
             // Check for unlock calls
             else if let Some(unlock_name) = Self::extract_unlock_call(stmt) {
@@ -298,15 +306,22 @@ impl LockAnalyzer {
         }
 
         // Check for unmatched locks (locks without unlocks)
-        for (lock_name, start_idx) in active_locks {
-            violations.push(format!(
-                "Unmatched lock: pthread_mutex_lock(&{}) at statement {} has no corresponding unlock",
-                lock_name, start_idx
-            ));
+        let mut unmatched: Vec<(String, usize)> = active_locks.into_iter().collect();
+        unmatched.sort_by_key(|(_, start_idx)| *start_idx);
+        for (lock_name, start_idx) in unmatched {
+            violations.push(Self::unmatched_lock(&lock_name, start_idx));
         }
 
         violations
     }
+
+    /// Describe a lock that is not followed by its unlock.
+    fn unmatched_lock(lock_name: &str, start_idx: usize) -> String {
+        format!(
+            "Unmatched lock: pthread_mutex_lock(&{}) at statement {} has no corresponding unlock",
+            lock_name, start_idx
+        )
+    }
 }
 
 impl Default for LockAnalyzer {
-- 
2.43.0


From c4c28d1c5468cbc38b96f097ebb5e5de6a4eecdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:23 +0000
Subject: [PATCH 32/43] fix: judge deadlock risk by the locks held, and see
 cycles of three or more locks

---
 crates/decy-verify/src/lock_verify.rs | 104 ++++++++++++++++++--------
 1 file changed, 72 insertions(+), 32 deletions(-)

diff --git a/crates/decy-verify/src/lock_verify.rs b/crates/decy-verify/src/lock_verify.rs
index d69a7af..03b093e 100644
--- a/crates/decy-verify/src/lock_verify.rs
+++ b/crates/decy-verify/src/lock_verify.rs
@@ -40,10 +40,11 @@
 //!
 //! ## Deadlock Detection
 //!
-//! 1. Extract lock acquisition order from each function
+//! 1. Extract from each function which locks it acquires while it holds which others
 //! 2. Compare orderings pairwise
 //! 3. Detect reverse orderings (e.g., A→B vs B→A) which indicate deadlock risk
-//! 4. Report potential deadlocks with involved locks
+//! 4. Otherwise detect longer cycles (e.g., A→B, B→C and C→A)
+//! 5. Report potential deadlocks with involved locks
 
 use decy_analyzer::lock_analysis::LockAnalyzer;
 use decy_hir::HirFunction;
@@ -246,8 +247,8 @@ impl<'a> LockDisciplineChecker<'a> {
             return warnings;
         }
 
-        // 1. Extract lock ordering for each function
-        let mut lock_orderings: Vec<Vec<String>> = Vec::new();
+        // 1. Extract, per function, which locks are acquired while which others are held
+        let mut lock_orderings: Vec<Vec<(String, String)>> = Vec::new();
         for func in functions {
             let ordering = self.extract_lock_ordering(func);
             if !ordering.is_empty() {
@@ -266,26 +267,43 @@ impl<'a> LockDisciplineChecker<'a> {
             }
         }
 
+        // 3. Three or more functions can deadlock although no two of them disagree
+        if warnings.is_empty() {
+            warnings.extend(self.detect_ordering_cycle(&lock_orderings));
+        }
+
         warnings
     }
 
-    /// Extract the lock acquisition order from a function
-    fn extract_lock_ordering(&self, func: &HirFunction) -> Vec<String> {
+    /// Extract the nested lock acquisitions of a function, in order.
+    ///
+    /// A pair `(a, b)` means that `b` is acquired while `a` is held.
+    fn extract_lock_ordering(&self, func: &HirFunction) -> Vec<(String, String)> {
         use decy_hir::{HirExpression, HirStatement};
+        let mut held: Vec<String> = Vec::new();
         let mut ordering = Vec::new();
-        let body = func.body();
 
-        for stmt in body {
-            if let HirStatement::Expression(HirExpression::FunctionCall { function, arguments }) =
+        for stmt in func.body() {
+            let HirStatement::Expression(HirExpression::FunctionCall { function, arguments }) =
                 stmt
-            {
-                if function == "pthread_mutex_lock" {
-                    if let Some(HirExpression::AddressOf(inner)) = arguments.first() {
-                        if let HirExpression::Variable(name) = &**inner {
-                            ordering.push(name.clone());
-                        }
+            else {
+                continue;
+            };
+            let Some(HirExpression::AddressOf(inner)) = arguments.first() else { continue };
+            let HirExpression::Variable(name) = &**inner else { continue };
+
+            if function == "pthread_mutex_lock" {
+                for outer in held.iter().filter(|outer| *outer != name) {
+                    let pair = (outer.clone(), name.clone());
+                    if !ordering.contains(&pair) {
+                        ordering.push(pair);
                     }
                 }
+                if !held.contains(name) {
+                    held.push(name.clone());
+                }
+            } else if function == "pthread_mutex_unlock" {
+                held.retain(|lock| lock != name);
             }
         }
 
@@ -295,28 +313,50 @@ impl<'a> LockDisciplineChecker<'a> {
     /// Detect if two lock orderings conflict (could cause deadlock)
     fn detect_ordering_conflict(
         &self,
-        ordering1: &[String],
-        ordering2: &[String],
+        ordering1: &[(String, String)],
+        ordering2: &[(String, String)],
     ) -> Option<String> {
-        // For each pair of locks in ordering1, check if they appear in reverse order in ordering2
-        for i in 0..ordering1.len() {
-            for j in (i + 1)..ordering1.len() {
-                let lock_a = &ordering1[i];
-                let lock_b = &ordering1[j];
-
-                // Check if ordering2 has lock_b before lock_a
-                let pos_a_in_2 = ordering2.iter().position(|l| l == lock_a);
-                let pos_b_in_2 = ordering2.iter().position(|l| l == lock_b);
-
-                if let (Some(pos_a), Some(pos_b)) = (pos_a_in_2, pos_b_in_2) {
-                    if pos_b < pos_a {
-                        // Found reverse ordering - potential deadlock!
+        ordering1.iter().find_map(|(lock_a, lock_b)| {
+            // Check if the other function acquires lock_a while it holds lock_b
+            let reversed = ordering2.iter().any(|(held, next)| held == lock_b && next == lock_a);
+            reversed.then(|| {
+                format!(
+                    "Potential deadlock: Inconsistent lock ordering detected. \
+                     One function acquires {} then {}, another acquires {} then {}",
+                    lock_a, lock_b, lock_b, lock_a
+                )
+            })
+        })
+    }
+
+    /// Detect acquisitions that form a cycle although no two functions reverse each other
+    fn detect_ordering_cycle(&self, orderings: &[Vec<(String, String)>]) -> Option<String> {
+        let edges: Vec<&(String, String)> = orderings.iter().flatten().collect();
+
+        for (start, first) in &edges {
+            // Paths from `start`, shortest first, until one comes back to it
+            let mut paths = vec![vec![start, first]];
+            let mut seen = vec![first];
+            let mut next = 0;
+            while next < paths.len() {
+                let path = paths[next].clone();
+                next += 1;
+                let last = path[path.len() - 1];
+                for (_, lock) in edges.iter().filter(|(held, _)| held == last) {
+                    let mut longer = path.clone();
+                    longer.push(lock);
+                    if lock == start {
+                        let names: Vec<&str> = longer.iter().map(|name| name.as_str()).collect();
                         return Some(format!(
                             "Potential deadlock: Inconsistent lock ordering detected. \
-                             One function acquires {} then {}, another acquires {} then {}",
-                            lock_a, lock_b, lock_b, lock_a
+                             Locks are acquired in a cycle: {}",
+                            names.join(" then ")
                         ));
                     }
+                    if !seen.contains(&lock) {
+                        seen.push(lock);
+                        paths.push(longer);
+                    }
                 }
             }
         }
-- 
2.43.0


From 8ab1a24df33bd6cebab43008a43fc48087c30533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:50 +0000
Subject: [PATCH 33/43] fix: an LLM prompt lists ownership and locks in a
 stable order

---
 crates/decy-llm/src/context_builder.rs | 14 ++++++++++++--
 crates/decy-llm/src/llm_codegen.rs     |  4 +++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/decy-llm/src/context_builder.rs b/crates/decy-llm/src/context_builder.rs
index ae613a2..a3d0589 100644
--- a/crates/decy-llm/src/context_builder.rs
+++ b/crates/decy-llm/src/context_builder.rs
@@ -2,8 +2,8 @@
 //!
 //! Builds structured JSON context from static analysis results.
 
-use serde::{Deserialize, Serialize};
-use std::collections::HashMap;
+use serde::{Deserialize, Serialize, Serializer};
+use std::collections::{BTreeMap, HashMap};
 
 /// Complete analysis context for LLM consumption.
 #[derive(Debug, Clone, Serialize, Deserialize)]
@@ -20,13 +20,23 @@ pub struct FunctionContext {
     /// Original C signature
     pub c_signature: String,
     /// Ownership inferences for variables
+    #[serde(serialize_with = "ordered_map")]
     pub ownership: HashMap<String, OwnershipInfo>,
     /// Lifetime relationships
     pub lifetimes: Vec<LifetimeInfo>,
     /// Lock-to-data mappings
+    #[serde(serialize_with = "ordered_map")]
     pub lock_mappings: HashMap<String, Vec<String>>,
 }
 
+/// Write a map in key order, so that the same analysis always gives the same prompt.
+fn ordered_map<S: Serializer, V: Serialize>(
+    map: &HashMap<String, V>,
+    serializer: S,
+) -> Result<S::Ok, S::Error> {
+    map.iter().collect::<BTreeMap<_, _>>().serialize(serializer)
+}
+
 /// Serializable ownership information.
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct OwnershipInfo {
diff --git a/crates/decy-llm/src/llm_codegen.rs b/crates/decy-llm/src/llm_codegen.rs
index 0aeede0..8d317c4 100644
--- a/crates/decy-llm/src/llm_codegen.rs
+++ b/crates/decy-llm/src/llm_codegen.rs
@@ -4,6 +4,7 @@
 
 use crate::context_builder::AnalysisContext;
 use serde::{Deserialize, Serialize};
+use std::collections::BTreeMap;
 use thiserror::Error;
 
 /// Errors that can occur during LLM code generation.
@@ -81,7 +82,8 @@ impl CodegenPrompt {
             if !func.ownership.is_empty() {
                 prompt.push_str(&format!("### Function: {}\n", func.name));
                 prompt.push_str("Ownership analysis:\n");
-                for (var, info) in &func.ownership {
+                let ordered: BTreeMap<_, _> = func.ownership.iter().collect();
+                for (var, info) in ordered {
                     prompt.push_str(&format!(
                         "- `{}`: {} (confidence: {:.0}%)\n",
                         var,
-- 
2.43.0


From e32b4eec767d5dd90db294f963863f5d23a2bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:09 +0000
Subject: [PATCH 34/43] fix: a mutex locked inside another's region is not data
 the other protects

---
 crates/decy-analyzer/src/lock_analysis.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/decy-analyzer/src/lock_analysis.rs b/crates/decy-analyzer/src/lock_analysis.rs
index 9c23046..c9e3ef6 100644
--- a/crates/decy-analyzer/src/lock_analysis.rs
+++ b/crates/decy-analyzer/src/lock_analysis.rs
@@ -165,7 +165,11 @@ impl LockAnalyzer {
         // Scan statements in the region (excluding lock/unlock calls)
         for idx in (region.start_index + 1)..region.end_index {
             if let Some(stmt) = body.get(idx) {
-                self.collect_accessed_variables(stmt, &mut accessed);
+                let is_lock_op = Self::extract_lock_call(stmt).is_some()
+                    || Self::extract_unlock_call(stmt).is_some();
+                if !is_lock_op {
+                    self.collect_accessed_variables(stmt, &mut accessed);
+                }
             }
         }
 
-- 
2.43.0


From 376a3f845813c89b5af8095eff8c86453ae062df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:51 +0000
Subject: [PATCH 35/43] fix: follow include directives however they are spaced,
 and read the name they give

---
 crates/decy-core/src/lib.rs | 104 +++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 56 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index bdce350..bfab9c4 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -288,16 +288,8 @@ impl DependencyGraph {
         let mut includes = Vec::new();
 
         for line in code.lines() {
-            let trimmed = line.trim();
-            if trimmed.starts_with("#include") {
-                // Extract filename from #include "file.h" or #include <file.h>
-                if let Some(start) = trimmed.find('"').or_else(|| trimmed.find('<')) {
-                    let end_char = if trimmed.chars().nth(start) == Some('"') { '"' } else { '>' };
-                    if let Some(end) = trimmed[start + 1..].find(end_char) {
-                        let filename = &trimmed[start + 1..start + 1 + end];
-                        includes.push(filename.to_string());
-                    }
-                }
+            if let Some(Include::Local(filename) | Include::System(filename)) = Include::of(line) {
+                includes.push(filename.to_string());
             }
         }
 
@@ -555,6 +547,33 @@ impl Default for TranspilationCache {
     }
 }
 
+/// The file an `#include` directive names.
+enum Include<'a> {
+    /// `#include "file.h"`
+    Local(&'a str),
+    /// `#include <file.h>`
+    System(&'a str),
+    /// The name is malformed or comes from a macro
+    Other,
+}
+
+impl<'a> Include<'a> {
+    /// Read a line of C code, `None` if it is no `#include` directive.
+    fn of(line: &'a str) -> Option<Self> {
+        let directive = line.trim_start().strip_prefix('#')?.trim_start();
+        let name = directive.strip_prefix("include")?.trim_start();
+        let quoted = |open: char, close: char| name.strip_prefix(open)?.split_once(close);
+
+        Some(if let Some((filename, _)) = quoted('"', '"') {
+            Include::Local(filename)
+        } else if let Some((filename, _)) = quoted('<', '>') {
+            Include::System(filename)
+        } else {
+            Include::Other
+        })
+    }
+}
+
 /// Preprocess #include directives in C source code (DECY-056).
 ///
 /// Resolves and inlines #include directives recursively, tracking processed files
@@ -586,36 +605,17 @@ fn preprocess_includes(
     let base_dir = base_dir.unwrap_or_else(|| Path::new("."));
 
     for line in source.lines() {
-        let trimmed = line.trim();
-
         // Check for #include directive
-        if trimmed.starts_with("#include") {
-            // Extract filename from #include "file.h" or #include <file.h>
-            let (filename, is_system) = if let Some(start) = trimmed.find('"') {
-                if let Some(end) = trimmed[start + 1..].find('"') {
-                    let filename = &trimmed[start + 1..start + 1 + end];
-                    (filename, false)
-                } else {
+        if let Some(include) = Include::of(line) {
+            let (filename, is_system) = match include {
+                Include::Local(filename) => (filename, false),
+                Include::System(filename) => (filename, true),
+                Include::Other => {
                     // Malformed include, keep original line
                     result.push_str(line);
                     result.push('\n');
                     continue;
                 }
-            } else if let Some(start) = trimmed.find('<') {
-                if let Some(end) = trimmed[start + 1..].find('>') {
-                    let filename = &trimmed[start + 1..start + 1 + end];
-                    (filename, true)
-                } else {
-                    // Malformed include, keep original line
-                    result.push_str(line);
-                    result.push('\n');
-                    continue;
-                }
-            } else {
-                // No include found, keep original line
-                result.push_str(line);
-                result.push('\n');
-                continue;
             };
 
             // Skip system includes (<stdio.h>) - we don't have those files
@@ -1738,29 +1738,21 @@ fn collect_headers(
         .ok_or_else(|| anyhow::anyhow!("Source file has no parent directory"))?;
 
     for line in c_code.lines() {
-        let trimmed = line.trim();
-        if trimmed.starts_with("#include") {
-            // Extract header filename from #include "header.h" or #include <header.h>
-            if let Some(start) = trimmed.find('"') {
-                if let Some(end) = trimmed[start + 1..].find('"') {
-                    let header_name = &trimmed[start + 1..start + 1 + end];
-                    let header_path = source_dir.join(header_name);
-                    let header_key =
-                        header_path.canonicalize().unwrap_or_else(|_| header_path.clone());
-                    if !visited.insert(header_key) {
-                        continue;
-                    }
-                    if !header_path.try_exists()? {
-                        headers.push((header_path, None));
-                        continue;
-                    }
-                    let header_code = std::fs::read_to_string(&header_path).with_context(|| {
-                        format!("Failed to read include file: {}", header_path.display())
-                    })?;
-                    collect_headers(&header_path, &header_code, visited, headers)?;
-                    headers.push((header_path, Some(header_code)));
-                }
+        if let Some(Include::Local(header_name)) = Include::of(line) {
+            let header_path = source_dir.join(header_name);
+            let header_key = header_path.canonicalize().unwrap_or_else(|_| header_path.clone());
+            if !visited.insert(header_key) {
+                continue;
             }
+            if !header_path.try_exists()? {
+                headers.push((header_path, None));
+                continue;
+            }
+            let header_code = std::fs::read_to_string(&header_path).with_context(|| {
+                format!("Failed to read include file: {}", header_path.display())
+            })?;
+            collect_headers(&header_path, &header_code, visited, headers)?;
+            headers.push((header_path, Some(header_code)));
         }
     }
 
-- 
2.43.0


From 0eeabe25fd03a8e609bdbb3925eec5e84ee2f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:26 +0000
Subject: [PATCH 36/43] fix: file-based translation emits functions in a stable
 order

---
 crates/decy-core/src/lib.rs | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index bfab9c4..ac42596 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1377,23 +1377,7 @@ fn process_ast_to_rust(ast: decy_parser::Ast, _base_dir: Option<&Path>) -> Resul
         ast.functions().iter().map(HirFunction::from_ast_function).collect();
 
     // DECY-190: Deduplicate functions
-    let hir_functions: Vec<HirFunction> = {
-        use std::collections::HashMap;
-        let mut func_map: HashMap<String, HirFunction> = HashMap::new();
-
-        for func in all_hir_functions {
-            let name = func.name().to_string();
-            if let Some(existing) = func_map.get(&name) {
-                if func.has_body() && !existing.has_body() {
-                    func_map.insert(name, func);
-                }
-            } else {
-                func_map.insert(name, func);
-            }
-        }
-
-        func_map.into_values().collect()
-    };
+    let hir_functions = deduplicate_functions(all_hir_functions);
 
     // Convert structs to HIR
     let hir_structs: Vec<decy_hir::HirStruct> = ast
-- 
2.43.0


From 67483619f236cacb7acc9e0bb7d0a5cf17ba514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:38 +0000
Subject: [PATCH 37/43] fix: do not cache a file whose includes are named by a
 macro

---
 crates/decy-core/src/lib.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index ac42596..b51c877 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1710,7 +1710,7 @@ fn extract_dependencies(source_path: &Path, c_code: &str) -> Result<Vec<PathBuf>
     Ok(dependencies)
 }
 
-/// Headers that do not exist are listed without content.
+/// Headers that do not exist, or whose name is not known, are listed without content.
 fn collect_headers(
     source_path: &Path,
     c_code: &str,
@@ -1722,21 +1722,26 @@ fn collect_headers(
         .ok_or_else(|| anyhow::anyhow!("Source file has no parent directory"))?;
 
     for line in c_code.lines() {
-        if let Some(Include::Local(header_name)) = Include::of(line) {
-            let header_path = source_dir.join(header_name);
-            let header_key = header_path.canonicalize().unwrap_or_else(|_| header_path.clone());
-            if !visited.insert(header_key) {
-                continue;
-            }
-            if !header_path.try_exists()? {
-                headers.push((header_path, None));
-                continue;
+        match Include::of(line) {
+            Some(Include::Local(header_name)) => {
+                let header_path = source_dir.join(header_name);
+                let header_key = header_path.canonicalize().unwrap_or_else(|_| header_path.clone());
+                if !visited.insert(header_key) {
+                    continue;
+                }
+                if !header_path.try_exists()? {
+                    headers.push((header_path, None));
+                    continue;
+                }
+                let header_code = std::fs::read_to_string(&header_path).with_context(|| {
+                    format!("Failed to read include file: {}", header_path.display())
+                })?;
+                collect_headers(&header_path, &header_code, visited, headers)?;
+                headers.push((header_path, Some(header_code)));
             }
-            let header_code = std::fs::read_to_string(&header_path).with_context(|| {
-                format!("Failed to read include file: {}", header_path.display())
-            })?;
-            collect_headers(&header_path, &header_code, visited, headers)?;
-            headers.push((header_path, Some(header_code)));
+            // Which file this is becomes known only when a macro is expanded
+            Some(Include::Other) => headers.push((source_dir.join(line.trim()), None)),
+            Some(Include::System(_)) | None => {}
         }
     }
 
-- 
2.43.0


From 16a6097a82cf8a1fad4b74ad64fc4db6df6524e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:47 +0000
Subject: [PATCH 38/43] fix: find dependencies that are included by another
 spelling of their path

---
 crates/decy-core/src/lib.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index b51c877..9ffaefb 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -251,10 +251,16 @@ impl DependencyGraph {
     /// Parses #include directives to build the dependency graph.
     pub fn from_files(files: &[PathBuf]) -> Result<Self> {
         let mut graph = Self::new();
+        // The same file can be reached by different spellings ("../inc/a.h")
+        let mut listed = HashMap::new();
 
         // Add all files first
         for file in files {
             graph.add_file(file);
+            let canonical = file
+                .canonicalize()
+                .with_context(|| format!("Failed to read file: {}", file.display()))?;
+            listed.insert(canonical, file);
         }
 
         // Parse dependencies
@@ -269,10 +275,19 @@ impl DependencyGraph {
 
             for include in includes {
                 let include_path = file_dir.join(&include);
+                let canonical = match include_path.canonicalize() {
+                    Ok(canonical) => canonical,
+                    Err(_) if !include_path.exists() => continue,
+                    Err(e) => {
+                        return Err(e).with_context(|| {
+                            format!("Failed to find include file: {}", include_path.display())
+                        })
+                    }
+                };
 
                 // Only add dependency if the included file is in our file list
-                if graph.contains_file(&include_path) {
-                    graph.add_dependency(file, &include_path);
+                if let Some(included) = listed.get(&canonical) {
+                    graph.add_dependency(file, included);
                 }
             }
         }
-- 
2.43.0


From 857eba012621c340eac2f2b279a556e21ed3137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:47 +0000
Subject: [PATCH 39/43] fix: check-project follows includes between the files
 it orders

---
 crates/decy/src/main.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 18ed127..2cac5bb 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -1015,10 +1015,7 @@ fn check_project(input_dir: PathBuf) -> Result<()> {
     println!();
 
     // Build dependency graph
-    let mut dep_graph = DependencyGraph::new();
-    for file in &c_files {
-        dep_graph.add_file(file);
-    }
+    let dep_graph = DependencyGraph::from_files(&c_files)?;
 
     // Check for circular dependencies
     match dep_graph.topological_sort() {
-- 
2.43.0


From b27aa8a2d0e7de883d749b07697cbd83e23b4022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:10 +0000
Subject: [PATCH 40/43] fix: average macro F1 over every class, also ones never
 predicted right

---
 crates/decy-ownership/src/classifier.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/decy-ownership/src/classifier.rs b/crates/decy-ownership/src/classifier.rs
index b5db177..926cffe 100644
--- a/crates/decy-ownership/src/classifier.rs
+++ b/crates/decy-ownership/src/classifier.rs
@@ -254,7 +254,13 @@ impl EvaluationMetrics {
 
     /// Compute macro-averaged F1 score.
     pub fn macro_f1(&self) -> f64 {
-        let classes: Vec<_> = self.true_positives.keys().collect();
+        // Every class that was seen or predicted counts, also one that was never right
+        let classes: std::collections::BTreeSet<_> = self
+            .true_positives
+            .keys()
+            .chain(self.false_positives.keys())
+            .chain(self.false_negatives.keys())
+            .collect();
         if classes.is_empty() {
             return 0.0;
         }
-- 
2.43.0


From 43aa6870f2921ce2fe8767ce6617d0f2042213f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:10 +0000
Subject: [PATCH 41/43] fix: do not take an unreadable cache for a missing one

---
 crates/decy-core/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 9ffaefb..c134ce7 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -529,7 +529,11 @@ impl TranspilationCache {
     pub fn load(cache_dir: &Path) -> Result<Self> {
         let cache_file = cache_dir.join("cache.json");
 
-        if !cache_file.exists() {
+        // A file that cannot be looked at is not a missing one
+        let exists = cache_file
+            .try_exists()
+            .with_context(|| format!("Failed to read cache file: {}", cache_file.display()))?;
+        if !exists {
             // No cache file exists yet, return empty cache
             return Ok(Self::with_directory(cache_dir));
         }
-- 
2.43.0


From 95d4ebab7215a19bf7caa0520121b66b86c43874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:10 +0000
Subject: [PATCH 42/43] fix: report an unreadable oracle config instead of
 using defaults

---
 crates/decy-oracle/src/config.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/decy-oracle/src/config.rs b/crates/decy-oracle/src/config.rs
index 17690ea..f43c361 100644
--- a/crates/decy-oracle/src/config.rs
+++ b/crates/decy-oracle/src/config.rs
@@ -71,7 +71,15 @@ impl OracleConfig {
 
     /// Load config from TOML file
     pub fn from_file(path: &std::path::Path) -> Result<Self, toml::de::Error> {
-        let content = std::fs::read_to_string(path).unwrap_or_default();
+        let content = match std::fs::read_to_string(path) {
+            Ok(content) => content,
+            // No config file: defaults
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => String::new(),
+            Err(e) => {
+                let message = format!("Failed to read {}: {}", path.display(), e);
+                return Err(serde::de::Error::custom(message));
+            }
+        };
         toml::from_str(&content)
     }
 }
-- 
2.43.0


From 2701a91a7a0922c93e0a7036af5228beb196d540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:10 +0000
Subject: [PATCH 43/43] fix: lock checks see every kind of access to shared
 data

---
 crates/decy-analyzer/src/lock_analysis.rs | 58 ++++++++++++++--
 crates/decy-verify/src/lock_verify.rs     | 80 +++++++++++++++++++++--
 2 files changed, 126 insertions(+), 12 deletions(-)

diff --git a/crates/decy-analyzer/src/lock_analysis.rs b/crates/decy-analyzer/src/lock_analysis.rs
index c9e3ef6..8b2f0a7 100644
--- a/crates/decy-analyzer/src/lock_analysis.rs
+++ b/crates/decy-analyzer/src/lock_analysis.rs
@@ -231,6 +231,24 @@ impl LockAnalyzer {
                 self.collect_variables_from_expr(object, accessed);
                 self.collect_variables_from_expr(value, accessed);
             }
+            HirStatement::For { init, condition, increment, body } => {
+                for s in init.iter().chain(increment).chain(body) {
+                    self.collect_accessed_variables(s, accessed);
+                }
+                if let Some(condition) = condition {
+                    self.collect_variables_from_expr(condition, accessed);
+                }
+            }
+            HirStatement::Switch { condition, cases, default_case } => {
+                self.collect_variables_from_expr(condition, accessed);
+                for s in cases.iter().flat_map(|case| &case.body).chain(default_case.iter().flatten())
+                {
+                    self.collect_accessed_variables(s, accessed);
+                }
+            }
+            HirStatement::Free { pointer } => {
+                self.collect_variables_from_expr(pointer, accessed);
+            }
             _ => {
                 // Break, Continue, etc. don't access variables
             }
@@ -248,27 +266,55 @@ impl LockAnalyzer {
                 self.collect_variables_from_expr(left, accessed);
                 self.collect_variables_from_expr(right, accessed);
             }
-            HirExpression::UnaryOp { operand, .. } => {
+            HirExpression::UnaryOp { operand, .. }
+            | HirExpression::PostIncrement { operand }
+            | HirExpression::PreIncrement { operand }
+            | HirExpression::PostDecrement { operand }
+            | HirExpression::PreDecrement { operand }
+            | HirExpression::CxxDelete { operand } => {
                 self.collect_variables_from_expr(operand, accessed);
             }
-            HirExpression::FunctionCall { arguments, .. } => {
+            HirExpression::FunctionCall { arguments, .. }
+            | HirExpression::CompoundLiteral { initializers: arguments, .. }
+            | HirExpression::CxxNew { arguments, .. } => {
                 for arg in arguments {
                     self.collect_variables_from_expr(arg, accessed);
                 }
             }
-            HirExpression::AddressOf(inner) | HirExpression::Dereference(inner) => {
+            HirExpression::AddressOf(inner)
+            | HirExpression::Dereference(inner)
+            | HirExpression::IsNotNull(inner) => {
                 self.collect_variables_from_expr(inner, accessed);
             }
-            HirExpression::ArrayIndex { array, index } => {
+            HirExpression::ArrayIndex { array, index }
+            | HirExpression::SliceIndex { slice: array, index, .. } => {
                 self.collect_variables_from_expr(array, accessed);
                 self.collect_variables_from_expr(index, accessed);
             }
-            HirExpression::FieldAccess { object, .. } => {
+            HirExpression::FieldAccess { object, .. }
+            | HirExpression::PointerFieldAccess { pointer: object, .. } => {
                 self.collect_variables_from_expr(object, accessed);
             }
-            HirExpression::Cast { expr, .. } => {
+            HirExpression::Cast { expr, .. }
+            | HirExpression::Calloc { count: expr, .. }
+            | HirExpression::Malloc { size: expr } => {
                 self.collect_variables_from_expr(expr, accessed);
             }
+            HirExpression::Realloc { pointer, new_size } => {
+                self.collect_variables_from_expr(pointer, accessed);
+                self.collect_variables_from_expr(new_size, accessed);
+            }
+            HirExpression::StringMethodCall { receiver, arguments, .. } => {
+                self.collect_variables_from_expr(receiver, accessed);
+                for arg in arguments {
+                    self.collect_variables_from_expr(arg, accessed);
+                }
+            }
+            HirExpression::Ternary { condition, then_expr, else_expr } => {
+                self.collect_variables_from_expr(condition, accessed);
+                self.collect_variables_from_expr(then_expr, accessed);
+                self.collect_variables_from_expr(else_expr, accessed);
+            }
             // Literals and other expressions don't reference variables
             _ => {}
         }
diff --git a/crates/decy-verify/src/lock_verify.rs b/crates/decy-verify/src/lock_verify.rs
index 03b093e..9ffe677 100644
--- a/crates/decy-verify/src/lock_verify.rs
+++ b/crates/decy-verify/src/lock_verify.rs
@@ -192,6 +192,46 @@ impl<'a> LockDisciplineChecker<'a> {
             HirStatement::Return(Some(expr)) => {
                 Self::collect_vars_from_expr(expr, &mut vars);
             }
+            HirStatement::DerefAssignment { target, value }
+            | HirStatement::FieldAssignment { object: target, value, .. } => {
+                Self::collect_vars_from_expr(target, &mut vars);
+                Self::collect_vars_from_expr(value, &mut vars);
+            }
+            HirStatement::ArrayIndexAssignment { array, index, value } => {
+                Self::collect_vars_from_expr(array, &mut vars);
+                Self::collect_vars_from_expr(index, &mut vars);
+                Self::collect_vars_from_expr(value, &mut vars);
+            }
+            HirStatement::Free { pointer } => {
+                Self::collect_vars_from_expr(pointer, &mut vars);
+            }
+            HirStatement::If { condition, then_block, else_block } => {
+                Self::collect_vars_from_expr(condition, &mut vars);
+                for s in then_block.iter().chain(else_block.iter().flatten()) {
+                    vars.extend(self.collect_accessed_vars(s));
+                }
+            }
+            HirStatement::While { condition, body } => {
+                Self::collect_vars_from_expr(condition, &mut vars);
+                for s in body {
+                    vars.extend(self.collect_accessed_vars(s));
+                }
+            }
+            HirStatement::For { init, condition, increment, body } => {
+                if let Some(condition) = condition {
+                    Self::collect_vars_from_expr(condition, &mut vars);
+                }
+                for s in init.iter().chain(increment).chain(body) {
+                    vars.extend(self.collect_accessed_vars(s));
+                }
+            }
+            HirStatement::Switch { condition, cases, default_case } => {
+                Self::collect_vars_from_expr(condition, &mut vars);
+                for s in cases.iter().flat_map(|case| &case.body).chain(default_case.iter().flatten())
+                {
+                    vars.extend(self.collect_accessed_vars(s));
+                }
+            }
             _ => {}
         }
 
@@ -210,27 +250,55 @@ impl<'a> LockDisciplineChecker<'a> {
                 Self::collect_vars_from_expr(left, vars);
                 Self::collect_vars_from_expr(right, vars);
             }
-            HirExpression::UnaryOp { operand, .. } => {
+            HirExpression::UnaryOp { operand, .. }
+            | HirExpression::PostIncrement { operand }
+            | HirExpression::PreIncrement { operand }
+            | HirExpression::PostDecrement { operand }
+            | HirExpression::PreDecrement { operand }
+            | HirExpression::CxxDelete { operand } => {
                 Self::collect_vars_from_expr(operand, vars);
             }
-            HirExpression::FunctionCall { arguments, .. } => {
+            HirExpression::FunctionCall { arguments, .. }
+            | HirExpression::CompoundLiteral { initializers: arguments, .. }
+            | HirExpression::CxxNew { arguments, .. } => {
                 for arg in arguments {
                     Self::collect_vars_from_expr(arg, vars);
                 }
             }
-            HirExpression::AddressOf(inner) | HirExpression::Dereference(inner) => {
+            HirExpression::AddressOf(inner)
+            | HirExpression::Dereference(inner)
+            | HirExpression::IsNotNull(inner) => {
                 Self::collect_vars_from_expr(inner, vars);
             }
-            HirExpression::ArrayIndex { array, index } => {
+            HirExpression::ArrayIndex { array, index }
+            | HirExpression::SliceIndex { slice: array, index, .. } => {
                 Self::collect_vars_from_expr(array, vars);
                 Self::collect_vars_from_expr(index, vars);
             }
-            HirExpression::FieldAccess { object, .. } => {
+            HirExpression::FieldAccess { object, .. }
+            | HirExpression::PointerFieldAccess { pointer: object, .. } => {
                 Self::collect_vars_from_expr(object, vars);
             }
-            HirExpression::Cast { expr, .. } => {
+            HirExpression::Cast { expr, .. }
+            | HirExpression::Calloc { count: expr, .. }
+            | HirExpression::Malloc { size: expr } => {
                 Self::collect_vars_from_expr(expr, vars);
             }
+            HirExpression::Realloc { pointer, new_size } => {
+                Self::collect_vars_from_expr(pointer, vars);
+                Self::collect_vars_from_expr(new_size, vars);
+            }
+            HirExpression::StringMethodCall { receiver, arguments, .. } => {
+                Self::collect_vars_from_expr(receiver, vars);
+                for arg in arguments {
+                    Self::collect_vars_from_expr(arg, vars);
+                }
+            }
+            HirExpression::Ternary { condition, then_expr, else_expr } => {
+                Self::collect_vars_from_expr(condition, vars);
+                Self::collect_vars_from_expr(then_expr, vars);
+                Self::collect_vars_from_expr(else_expr, vars);
+            }
             _ => {}
         }
     }
-- 
2.43.0

