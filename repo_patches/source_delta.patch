From 62c284b0b502961e0bead887714b49aace4329c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 01/10] fix: do not print the names of the drains to STDOUT
 when adding exit spies

---
 src/config_manip.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/config_manip.rs b/src/config_manip.rs
index fcce13a..f19835a 100644
--- a/src/config_manip.rs
+++ b/src/config_manip.rs
@@ -651,7 +651,6 @@ fn add_launch_exit_spies(config: &mut Config, to_add: Vec<String>) {
 
     let mut existing_connection_keys = config.connection.keys().map(|x| x.clone()).collect();
     let mut existing_drains = config.drain.keys().map(|x| x.clone()).collect();
-    println!("{:?}", existing_drains);
 
     for launch_name in to_add {
         let new_drain_key = generate_new_key("dyn_drain", &existing_drains);
-- 
2.43.0


From 07fe324ca577f3d5f0dad12c097e960f1fb4adc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 02/10] fix: keep junction inputs of equal priority in one
 group

---
 src/junction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/junction.rs b/src/junction.rs
index 6ffd1ed..36b6ece 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -88,6 +88,7 @@ impl Junction {
                 self.stdin.push(vec![])
             }
             if priority > old_priority {
+                old_priority = priority;
                 self.stdin.push(vec![])
             }
             if let Some(v) = self.stdin.last_mut() {
-- 
2.43.0


From cebea24e0485da96a703b2959121d08391d5d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 03/10] fix: close the remaining outputs of a junction which
 stops with an error

---
 src/junction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/junction.rs b/src/junction.rs
index 36b6ece..5e83d92 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -177,6 +177,7 @@ impl StartableControl for Junction {
                 Ok((false, n)) => { read_count += n }
                 Err(e) => {
                     self.stdin.clear();
+                    self.stdout.clear();
                     return MotionResult::Err(e);
                 }
             }
-- 
2.43.0


From 3696a6dff3c84645a8a590e5d69d9cfa19ea3a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 04/10] fix: close the output of a faucet which cannot open its
 source

---
 src/faucet.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/faucet.rs b/src/faucet.rs
index ef5142d..36539bf 100644
--- a/src/faucet.rs
+++ b/src/faucet.rs
@@ -91,9 +91,13 @@ impl StartableControl for Faucet {
         self.stdin = Some(match (self.pull_journey, read_location) {
             (Some(journey), Some(f)) if f == "-" => Pull::Stdin(journey, async_std::io::stdin(), ReadSplitControl::new()),
             (Some(journey), Some(filename)) => {
-                let file = async_std::fs::File::open(filename).await
-                    .map_err(|e| MotionError::OpenIOError(journey, Instant::now(), e))?;
-                Pull::File(journey, file, ReadSplitControl::new())
+                match async_std::fs::File::open(filename).await {
+                    Ok(file) => Pull::File(journey, file, ReadSplitControl::new()),
+                    Err(e) => {
+                        self.stdout = None;
+                        return Err(MotionError::OpenIOError(journey, Instant::now(), e));
+                    },
+                }
             },
             _ => Pull::None,
         });
-- 
2.43.0


From c7abfbd0070db034e8f4a4bc355cee5c10ac46b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 05/10] fix: report a program which cannot be started instead
 of panicking

---
 src/launch.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/launch.rs b/src/launch.rs
index bc254fb..3691051 100644
--- a/src/launch.rs
+++ b/src/launch.rs
@@ -180,11 +180,15 @@ impl <E: IntoIterator<Item = (K, V)>,
             false => { child_builder.stderr(async_std::process::Stdio::null()); }
         }
 
-        let mut child = child_builder.spawn().map_err(
-            |_c| {
-                MotionError::LaunchSpawnError(self.command.as_ref().to_str().map(|s| s.to_owned()))
+        let mut child = match child_builder.spawn() {
+            Ok(child) => child,
+            Err(_c) => {
+                self.stdout = None;
+                self.stderr = None;
+                self.exit_status = None;
+                return Err(MotionError::LaunchSpawnError(self.command.as_ref().to_str().map(|s| s.to_owned())));
             }
-        ).unwrap();
+        };
 
         let child_stdin_push = match std::mem::take(&mut child.stdin) {
             Some(stdin) => {
-- 
2.43.0


From 84f0432d59f7b9f79862217ac2679ebfc2acbe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 06/10] fix: close the control channel however a regulator or
 faucet stops

---
 src/faucet.rs    | 6 +++++-
 src/regulator.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/faucet.rs b/src/faucet.rs
index 36539bf..ecccbe7 100644
--- a/src/faucet.rs
+++ b/src/faucet.rs
@@ -102,7 +102,11 @@ impl StartableControl for Faucet {
             _ => Pull::None,
         });
 
-        self.start_secret(spy).await
+        let result = self.start_secret(spy).await;
+        if let Some(c) = &self.control {
+            c.close();
+        }
+        result
 
     }
 
diff --git a/src/regulator.rs b/src/regulator.rs
index 512f0c1..1e300b4 100644
--- a/src/regulator.rs
+++ b/src/regulator.rs
@@ -92,7 +92,11 @@ impl Connectable for Regulator {
 impl StartableControl for Regulator {
 
     async fn start(&mut self, spy: Option<Sender<SpyMessage>>) -> MotionResult<usize> {
-        self.start_secret(spy).await
+        let result = self.start_secret(spy).await;
+        if let Some(c) = &self.control {
+            c.close();
+        }
+        result
     }
 
 }
-- 
2.43.0


From d81410e420012f23b23ec2cf326c83e476cd14de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 07/10] fix: sort errors by a total order

---
 src/waiter.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/waiter.rs b/src/waiter.rs
index 5a22ba4..fa52559 100644
--- a/src/waiter.rs
+++ b/src/waiter.rs
@@ -409,12 +409,7 @@ impl Waiter {
 
         l.into_iter().fold(Ok(0), folder)
             .map_err(|mut v| {
-                v.sort_by(|e1, e2| {
-                    if let (Some(i1), Some(i2)) = (e1.instant(), e2.instant()) {
-                        return i1.duration_since(start_instant).cmp(&i2.duration_since(start_instant));
-                    }
-                    std::cmp::Ordering::Equal
-                });
+                v.sort_by_key(|e| e.instant().map(|i| i.duration_since(start_instant)));
                 v
             })
 
-- 
2.43.0


From e3eec4a6f25449c9f2c5632825e664c8065c8e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 08/10] fix: report a join which cannot be parsed instead of
 panicking

---
 src/bin/pa2.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bin/pa2.rs b/src/bin/pa2.rs
index 33ce179..7988ef9 100644
--- a/src/bin/pa2.rs
+++ b/src/bin/pa2.rs
@@ -463,6 +463,16 @@ enum UserResponse {
 }
 
 
+fn read_config_with_connections(action: &str, config_format: &ConfigFormat, config_in: &str) -> Result<Config, String> {
+    let mut config = read_config(config_format, config_in)?;
+    let errs = Config::convert_connections(&mut config.connection).into_iter().map(|c| c.to_string()).collect::<Vec<String>>();
+    if errs.is_empty() {
+        return Ok(config);
+    }
+    Err(format!("{} {}", action, errs.join("\n * ")))
+}
+
+
 fn process_user_config_action(result_config: Result<UserRequest, String>) -> Result<UserResponse, String> {
 
     match result_config {
@@ -510,11 +520,11 @@ fn process_user_config_action(result_config: Result<UserRequest, String>) -> Res
             return Err(format!("We found the following warnings / errors: \n\n * {}\n", errs.join("\n * ")));
         },
         Ok(UserRequest::Manipulate { config_in, config_format }) => {
-            let config = read_config(&config_format, &config_in)?;
+            let config = read_config_with_connections("Manipulate", &config_format, &config_in)?;
             Ok(connection_manipulation_light(config)).map(UserResponse::Config)
         },
         Ok(UserRequest::Process { config_in, config_format }) => {
-            let mut config = connection_manipulation(read_config(&config_format, &config_in)?);
+            let mut config = connection_manipulation(read_config_with_connections("Process", &config_format, &config_in)?);
 
             let errs = Config::lint(&mut config).into_iter()
                 .filter(|lint_err| !matches!(lint_err, ConfigLintWarning::InConfigButMissingFlowConnection { .. }))
-- 
2.43.0


From d319a3af5ae54dd15fedda0907cbad5a656db4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:20 +0000
Subject: [PATCH 09/10] fix: close the control channel of a faucet which cannot
 open its source

---
 src/faucet.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/faucet.rs b/src/faucet.rs
index ecccbe7..ee3d817 100644
--- a/src/faucet.rs
+++ b/src/faucet.rs
@@ -95,6 +95,9 @@ impl StartableControl for Faucet {
                     Ok(file) => Pull::File(journey, file, ReadSplitControl::new()),
                     Err(e) => {
                         self.stdout = None;
+                        if let Some(c) = &self.control {
+                            c.close();
+                        }
                         return Err(MotionError::OpenIOError(journey, Instant::now(), e));
                     },
                 }
-- 
2.43.0


From 027427ea5189ae5988ff582b491cf98d707a6704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 10/10] Verification hooks: the watermark loop and a
 regulator's control (cfg verif_hooks)

---
 src/regulator.rs | 6 ++++++
 src/waiter.rs    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/regulator.rs b/src/regulator.rs
index 1e300b4..c38151a 100644
--- a/src/regulator.rs
+++ b/src/regulator.rs
@@ -168,6 +168,12 @@ pub struct RegulatorControl {
 }
 
 
+#[cfg(verif_hooks)]
+pub fn verif_regulator_control(control: async_std::channel::Sender<()>) -> RegulatorControl {
+    RegulatorControl { paused: false, control }
+}
+
+
 impl RegulatorControl {
 
     pub async fn pause(&mut self) -> Result<bool, SendError<()>> {
diff --git a/src/waiter.rs b/src/waiter.rs
index fa52559..3af3fa1 100644
--- a/src/waiter.rs
+++ b/src/waiter.rs
@@ -99,6 +99,12 @@ async fn manage_regulator_from_buffers(mut regulator_settings: RegulatorSettings
 }
 
 
+#[cfg(verif_hooks)]
+pub async fn verif_manage_regulator(low_watermark: usize, high_watermark: usize, regulator_component: RegulatorControl, buffer_size_monitors: Vec<Receiver<BufferSizeMessage>>) -> Result<usize, WaiterError> {
+    manage_regulator_from_buffers(RegulatorSettingsCapture { low_watermark, high_watermark, regulator_component, buffer_size_monitors }).await
+}
+
+
 pub struct Waiter {
     faucet: HashMap<String, Faucet>,
     launch: HashMap<String, LaunchString>,
-- 
2.43.0

