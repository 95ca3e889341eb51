From 479b3d71fe913cf3c4096df610414fcdf280df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 01/20] fix: report a failed flush of formatted standard input

format_stdin_write() relied on the flush at process exit, which ignores errors: the
unterminated last line could be lost while the exit status was 0.
---
 crates/air/src/commands/format/stdin.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/air/src/commands/format/stdin.rs b/crates/air/src/commands/format/stdin.rs
index 23238dd..d772d8f 100644
--- a/crates/air/src/commands/format/stdin.rs
+++ b/crates/air/src/commands/format/stdin.rs
@@ -96,9 +96,12 @@ fn format_stdin_write<P: AsRef<Path>>(
         FormattedStdin::Unchanged(unchanged) => unchanged,
     };
 
-    std::io::stdout()
-        .lock()
+    // Flush explicitly. The flush performed when the process exits ignores errors, so the
+    // last partial line could be lost while we still report success.
+    let mut stdout = std::io::stdout().lock();
+    stdout
         .write_all(buffer.as_bytes())
+        .and_then(|()| stdout.flush())
         .map_err(FormatStdinError::Write)
 }
 
-- 
2.43.0


From c564b91a81d0c44aae77d50d3e9db7c32fd3e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:24 +0000
Subject: [PATCH 02/20] fix: keep the document's line endings when air.toml
 sets line-ending

---
 crates/lsp/src/workspaces.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index 1cbc000..2e06c17 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -9,6 +9,7 @@ use std::path::Path;
 use std::path::PathBuf;
 
 use air_r_formatter::context::RFormatOptions;
+use settings::LineEnding;
 use tower_lsp::lsp_types::Url;
 use tower_lsp::lsp_types::WorkspaceFolder;
 use workspace::discovery::DiscoveredSettings;
@@ -264,8 +265,13 @@ impl WorkspaceSettings<'_> {
     ) -> RFormatOptions {
         match self {
             WorkspaceSettings::Toml(settings) => {
-                // If there is an actual TOML, that wins
-                settings.format.to_format_options(source)
+                // If there is an actual TOML, that wins, except for the line endings.
+                // Documents are normalized to Unix line endings, and the original ones are
+                // restored when creating the edits.
+                settings
+                    .format
+                    .to_format_options(source)
+                    .with_line_ending(LineEnding::Lf)
             }
             WorkspaceSettings::Fallback(settings) => {
                 // In the fallback case, merge with client provided `DocumentSettings`
-- 
2.43.0


From 5d2309c69de8bbc8ada5275abed7e306e70a4f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:24 +0000
Subject: [PATCH 03/20] fix: do not panic when the client leaves without
 shutting down

---
 crates/lsp/src/main_loop.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/lsp/src/main_loop.rs b/crates/lsp/src/main_loop.rs
index 7309256..d62bf27 100644
--- a/crates/lsp/src/main_loop.rs
+++ b/crates/lsp/src/main_loop.rs
@@ -282,7 +282,11 @@ impl GlobalState {
         set.spawn(async move { auxiliary_state.start().await });
 
         loop {
-            let event = self.next_event().await;
+            // The channel is closed when the backend is dropped without a `shutdown` request,
+            // i.e. when the client exits or disconnects early
+            let Some(event) = self.next_event().await else {
+                break;
+            };
             match self.handle_event(event).await {
                 Err(err) => tracing::error!("Failure while handling event:\n{err:?}"),
                 Ok(LoopControl::Shutdown) => break,
@@ -294,8 +298,8 @@ impl GlobalState {
         set.shutdown().await;
     }
 
-    async fn next_event(&mut self) -> Event {
-        self.events_rx.recv().await.unwrap()
+    async fn next_event(&mut self) -> Option<Event> {
+        self.events_rx.recv().await
     }
 
     #[rustfmt::skip]
-- 
2.43.0


From 749f7ba5778f45165834f700a3383eadf8fcd9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:58 +0000
Subject: [PATCH 04/20] fix: track workspace folders whose air.toml is invalid
 when they are opened

---
 crates/lsp/src/workspaces.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index 2e06c17..3438e8e 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -88,8 +88,10 @@ impl WorkspaceSettingsResolver {
         let discovered_settings = match discover_settings(&[&path]) {
             Ok(discovered_settings) => discovered_settings,
             Err(error) => {
+                // Still add the workspace (without any settings), so it can be reloaded once
+                // its `air.toml` has been fixed
                 failed_to_open_workspace_folder(url, error);
-                return;
+                Vec::new()
             }
         };
 
-- 
2.43.0


From 8bd9814dbbdb4366b6968c6a136badc10b05e2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:58 +0000
Subject: [PATCH 05/20] fix: report a removed or broken air.toml as a settings
 change

---
 crates/lsp/src/workspaces.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index 3438e8e..12e5aca 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -182,6 +182,9 @@ impl WorkspaceSettingsResolver {
         let mut changed = false;
 
         for workspace_match in self.path_to_settings_resolver.matches_mut(&path) {
+            // Even if there aren't any settings left, i.e. the `air.toml` was removed
+            changed = true;
+
             // Clear existing settings up front, regardless of what happens when reloading.
             // Done in a tight scope to avoid simultaneous mutable and immutable borrows.
             {
@@ -210,7 +213,6 @@ impl WorkspaceSettingsResolver {
                 settings,
             } in discovered_settings
             {
-                changed = true;
                 workspace_settings_resolver.add(&directory, settings);
             }
         }
-- 
2.43.0


From 124c57a87baaecb3603bcd86de6e041211830756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:58 +0000
Subject: [PATCH 06/20] fix: accept the warning log level offered by the
 extension

---
 crates/lsp/src/logging.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/lsp/src/logging.rs b/crates/lsp/src/logging.rs
index a69396b..5207953 100644
--- a/crates/lsp/src/logging.rs
+++ b/crates/lsp/src/logging.rs
@@ -350,6 +350,8 @@ fn resolve_dependency_log_levels(dependency_log_levels: Option<String>) -> Optio
 #[serde(rename_all = "lowercase")]
 pub(crate) enum LogLevel {
     Error,
+    /// The client's `air.logLevel` setting calls this level `"warning"`
+    #[serde(alias = "warning")]
     Warn,
     #[default]
     Info,
-- 
2.43.0


From 58a1ad5a128ad6c522d45e92be72d9b6c3381f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:13 +0000
Subject: [PATCH 07/20] fix: exit without waiting for standard input to be
 closed

---
 crates/air/src/commands/language_server.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/air/src/commands/language_server.rs b/crates/air/src/commands/language_server.rs
index 94ba0b2..67111ae 100644
--- a/crates/air/src/commands/language_server.rs
+++ b/crates/air/src/commands/language_server.rs
@@ -1,10 +1,15 @@
 use crate::ExitStatus;
 use crate::args::LanguageServerCommand;
 
-#[tokio::main]
-pub(crate) async fn language_server(_command: LanguageServerCommand) -> anyhow::Result<ExitStatus> {
+pub(crate) fn language_server(_command: LanguageServerCommand) -> anyhow::Result<ExitStatus> {
+    let runtime = tokio::runtime::Runtime::new()?;
+
     // Returns after shutdown
-    lsp::start_lsp(tokio::io::stdin(), tokio::io::stdout()).await;
+    runtime.block_on(lsp::start_lsp(tokio::io::stdin(), tokio::io::stdout()));
+
+    // Reads of stdin happen on a blocking thread and can't be cancelled, so don't wait for them.
+    // Otherwise we wouldn't exit until the client closes our stdin.
+    runtime.shutdown_background();
 
     Ok(ExitStatus::Success)
 }
-- 
2.43.0


From bfcbb187cd3d001ed6dfe881d20021937ad2cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:22 +0000
Subject: [PATCH 08/20] fix: move a Zed download into place only once it is
 complete

A download that was cut off left a partially written binary behind, which later requests accepted as installed.
---
 editors/zed/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/editors/zed/src/lib.rs b/editors/zed/src/lib.rs
index dc228b0..e27f160 100644
--- a/editors/zed/src/lib.rs
+++ b/editors/zed/src/lib.rs
@@ -108,13 +108,23 @@ impl AirExtension {
                 &zed::LanguageServerInstallationStatus::Downloading,
             );
 
+            // Unpack into a temporary directory and only move it into place once complete.
+            // Otherwise an interrupted download would leave a partially written binary behind
+            // that we'd consider installed from then on.
+            let partial_directory = format!("{}.partial", release_details.downloaded_directory);
+            fs::remove_dir_all(&partial_directory).ok();
+
             zed::download_file(
                 &asset.download_url,
-                &release_details.downloaded_directory,
+                &partial_directory,
                 release_details.downloaded_file_type,
             )
             .map_err(|error| format!("Failed to download file: {error}"))?;
 
+            fs::remove_dir_all(&release_details.downloaded_directory).ok();
+            fs::rename(&partial_directory, &release_details.downloaded_directory)
+                .map_err(|error| format!("Failed to move download into place: {error}"))?;
+
             // Clean out other entries in our personal extension directory, this may
             // include outdated versions of the extension, so it is good hygiene
             let entries = fs::read_dir(".")
-- 
2.43.0


From e389960fccc911be4800ccd3f0b9c08e75f86ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:05 +0000
Subject: [PATCH 09/20] fix: read the setting for the terminal PATH under its
 declared name

---
 editors/code/src/settings.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/settings.ts b/editors/code/src/settings.ts
index 74a49b8..b15e076 100644
--- a/editors/code/src/settings.ts
+++ b/editors/code/src/settings.ts
@@ -42,7 +42,8 @@ export function getWorkspaceSettings(
 		executableStrategy:
 			config.get<ExecutableStrategy>("executableStrategy") ?? "bundled",
 		executablePath: config.get<string>("executablePath"),
-		addExecutableToPath: config.get<boolean>("addExecutableToPath") ?? true,
+		addExecutableToPath:
+			config.get<boolean>("addExecutableToTerminalPath") ?? true,
 	};
 }
 
-- 
2.43.0


From fdb8fb6f0845897926b232779f89beb6013bfedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:05 +0000
Subject: [PATCH 10/20] fix: let deactivation wait for the language server to
 stop

---
 editors/code/src/extension.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/editors/code/src/extension.ts b/editors/code/src/extension.ts
index 199de14..5a7e250 100644
--- a/editors/code/src/extension.ts
+++ b/editors/code/src/extension.ts
@@ -45,5 +45,5 @@ export function activate(context: vscode.ExtensionContext) {
 }
 
 export function deactivate() {
-	ctx.lsp.stop();
+	return ctx.lsp.stop();
 }
-- 
2.43.0


From 18b19027192647a60c1a610f098d58214ed67829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:05 +0000
Subject: [PATCH 11/20] fix: tell documents apart by their whole URI when
 applying file settings

---
 editors/code/src/notification/sync-file-settings.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/editors/code/src/notification/sync-file-settings.ts b/editors/code/src/notification/sync-file-settings.ts
index 5ac086a..d4be546 100644
--- a/editors/code/src/notification/sync-file-settings.ts
+++ b/editors/code/src/notification/sync-file-settings.ts
@@ -1,6 +1,5 @@
 import * as vscode from "vscode";
 import * as lc from "vscode-languageclient/node";
-import { normalizePath } from "../utils";
 
 export interface SyncFileSettingsParams {
 	file_settings: FileSettings[];
@@ -43,8 +42,8 @@ export class FileSettingsState {
 		this.settings.clear();
 
 		for (const fileSettings of params.file_settings) {
-			const path = normalizePath(fileSettings.url);
-			this.settings.set(path, fileSettings.format);
+			const uri = vscode.Uri.parse(fileSettings.url);
+			this.settings.set(uri.toString(), fileSettings.format);
 		}
 
 		// Apply right away to the active text editor. We also have a handler
@@ -57,7 +56,7 @@ export class FileSettingsState {
 
 	public apply(editor: vscode.TextEditor) {
 		const uri = editor.document.uri;
-		const settings = this.settings.get(uri.path);
+		const settings = this.settings.get(uri.toString());
 
 		if (settings) {
 			const insertSpaces = settings.indent_style === "space";
-- 
2.43.0


From 7e74aa91a882fa82455c7d10ce33fde84459c766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:05 +0000
Subject: [PATCH 12/20] fix: append to .Rbuildignore instead of rewriting its
 decoded content

---
 .../workspace-folder-initialization.ts        | 38 +++++++++----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/editors/code/src/command/workspace-folder-initialization.ts b/editors/code/src/command/workspace-folder-initialization.ts
index 46008b6..7039ccf 100644
--- a/editors/code/src/command/workspace-folder-initialization.ts
+++ b/editors/code/src/command/workspace-folder-initialization.ts
@@ -181,30 +181,30 @@ async function updateRbuildignore(
 	const content = new TextDecoder().decode(buffer);
 
 	const newline = content.includes("\r\n") ? "\r\n" : "\n";
-	const lines = content.split(newline);
+	const lines = content.split(/\r?\n/);
 
-	if (lines.at(-1) === "") {
-		// Drop final line if it's empty, i.e. we split on newlines and the
-		// file ended with a newline. This avoids writing a blank line between
-		// the existing content and our new lines.
-		lines.pop();
-	}
-
-	let anyMissing = false;
 	const patterns = ["^\\.vscode$", "^[.]?air[.]toml$"];
+	let addition = "";
 
-	for (const pattern of patterns) {
-		const exists = lines.find((line) => line === pattern);
+	if (lines.at(-1) !== "") {
+		// Terminate the final line if it isn't already, so that our new lines
+		// don't run into it.
+		addition += newline;
+	}
 
-		if (!exists) {
-			anyMissing = true;
-			lines.push(pattern);
-		}
+	const missing = patterns.filter((pattern) => !lines.includes(pattern));
+
+	for (const pattern of missing) {
+		addition += pattern + newline;
 	}
 
-	if (anyMissing) {
-		const content = lines.join(newline) + newline;
-		const buffer = new TextEncoder().encode(content);
-		await vscode.workspace.fs.writeFile(rbuildignoreUri, buffer);
+	if (missing.length > 0) {
+		// Append to the original bytes. The file isn't necessarily UTF-8 encoded,
+		// so writing back the decoded `content` could lose what the user had.
+		const bytes = new TextEncoder().encode(addition);
+		const updated = new Uint8Array(buffer.length + bytes.length);
+		updated.set(buffer);
+		updated.set(bytes, buffer.length);
+		await vscode.workspace.fs.writeFile(rbuildignoreUri, updated);
 	}
 }
-- 
2.43.0


From 8822108fde2aa021655f1a12b2cff61b5fd2a0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:05 +0000
Subject: [PATCH 13/20] fix: do not take a file that can't be inspected for a
 missing one

---
 editors/code/src/utils.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/editors/code/src/utils.ts b/editors/code/src/utils.ts
index c3ba2a2..817319c 100644
--- a/editors/code/src/utils.ts
+++ b/editors/code/src/utils.ts
@@ -25,7 +25,13 @@ export async function fileExists(uri: vscode.Uri): Promise<boolean> {
 	try {
 		await vscode.workspace.fs.stat(uri);
 		return true;
-	} catch {
-		return false;
+	} catch (error) {
+		if (
+			error instanceof vscode.FileSystemError &&
+			error.code === "FileNotFound"
+		) {
+			return false;
+		}
+		throw error;
 	}
 }
-- 
2.43.0


From 5267c3971d58fadd3bd5b11bd7e0656c1ba43861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:05 +0000
Subject: [PATCH 14/20] fix: compare document URIs by value when answering
 settings requests

---
 editors/code/src/lsp.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/lsp.ts b/editors/code/src/lsp.ts
index 6abe05b..de2cd38 100644
--- a/editors/code/src/lsp.ts
+++ b/editors/code/src/lsp.ts
@@ -162,7 +162,8 @@ export class Lsp {
 						// call `openDocument()` here, we just look for an
 						// already opened one.
 						const document = vscode.workspace.textDocuments.find(
-							(document) => document.uri === uri,
+							(document) =>
+								document.uri.toString() === uri.toString(),
 						);
 
 						// If there was no document, it means it was closed in
-- 
2.43.0


From 16e2540d5ab11a30aee5e07c57dfb2b4fe9bfd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:05 +0000
Subject: [PATCH 15/20] fix: tell a folder's documents from those of a folder
 whose name it begins

---
 editors/code/src/workspace.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/workspace.ts b/editors/code/src/workspace.ts
index 8f8b3bf..c94322d 100644
--- a/editors/code/src/workspace.ts
+++ b/editors/code/src/workspace.ts
@@ -184,7 +184,16 @@ function dirtyWorkspaceTextDocuments(
 			return false;
 		}
 
-		if (!document.uri.fsPath.startsWith(workspaceFolder.uri.fsPath)) {
+		const relative = path.relative(
+			workspaceFolder.uri.fsPath,
+			document.uri.fsPath,
+		);
+
+		if (
+			relative === ".." ||
+			relative.startsWith(".." + path.sep) ||
+			path.isAbsolute(relative)
+		) {
 			// The document must live "under" the chosen workspace folder for us to care about it
 			return false;
 		}
-- 
2.43.0


From f73be9c7220adf65244d646f81bf486b17ae2974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:05 +0000
Subject: [PATCH 16/20] fix: pick the workspace folder itself rather than its
 name

---
 editors/code/src/workspace.ts | 44 +++++++++++------------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/editors/code/src/workspace.ts b/editors/code/src/workspace.ts
index c94322d..95818ab 100644
--- a/editors/code/src/workspace.ts
+++ b/editors/code/src/workspace.ts
@@ -1,7 +1,6 @@
 import path from "path";
 import * as vscode from "vscode";
 import * as fs from "fs-extra";
-import * as output from "./output";
 
 /*
  * Locate the "root" workspace folder
@@ -95,36 +94,21 @@ export async function selectWorkspaceFolder(): Promise<
 async function selectWorkspaceFolderFromQuickPick(
 	workspaceFolders: readonly vscode.WorkspaceFolder[],
 ): Promise<vscode.WorkspaceFolder | undefined> {
-	// Show the workspace names
-	const workspaceFolderNames = workspaceFolders.map(
-		(workspaceFolder) => workspaceFolder.name,
-	);
-
-	const workspaceFolderName = await vscode.window.showQuickPick(
-		workspaceFolderNames,
-		{
-			canPickMany: false,
-			title: "Select a workspace folder",
-		},
-	);
-
-	if (!workspaceFolderName) {
-		// User bailed from the quick pick
-		return undefined;
-	}
-
-	// Match selected name back to the workspace folder
-	for (let workspaceFolder of workspaceFolders) {
-		if (workspaceFolder.name === workspaceFolderName) {
-			return workspaceFolder;
-		}
-	}
+	// Show the workspace names. Names aren't necessarily unique, so we also show
+	// the path, and each item remembers the workspace folder it stands for.
+	const items = workspaceFolders.map((workspaceFolder) => ({
+		label: workspaceFolder.name,
+		description: workspaceFolder.uri.fsPath,
+		workspaceFolder,
+	}));
+
+	const item = await vscode.window.showQuickPick(items, {
+		canPickMany: false,
+		title: "Select a workspace folder",
+	});
 
-	// Should never get here
-	output.log(
-		`Matched a workspace folder name, but unexpectedly can't find corresponding workspace folder. Folder name: ${workspaceFolderName}.`,
-	);
-	return undefined;
+	// `undefined` if the user bailed from the quick pick
+	return item?.workspaceFolder;
 }
 
 /**
-- 
2.43.0


From 2153b0c262e889f8353c5985c719a91b063173c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:05 +0000
Subject: [PATCH 17/20] fix: synchronise the settings of all open documents
 when one is opened

---
 crates/lsp/src/handlers_state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/lsp/src/handlers_state.rs b/crates/lsp/src/handlers_state.rs
index 72fdf4b..155a011 100644
--- a/crates/lsp/src/handlers_state.rs
+++ b/crates/lsp/src/handlers_state.rs
@@ -144,12 +144,12 @@ pub(crate) async fn did_open(
     state.documents.insert(uri.clone(), document);
 
     // Propagate client settings to Air
-    update_config(vec![uri.clone()], lsp_state, state)
+    update_config(vec![uri], lsp_state, state)
         .instrument(tracing::info_span!("did_change_configuration"))
         .await?;
 
     // Backpropagate Air settings to client
-    lsp_state.sync_file_settings(vec![uri]).await;
+    lsp_state.sync_file_settings(state.workspace_uris()).await;
 
     Ok(())
 }
-- 
2.43.0


From d2a22020ffa9315bc8c8837bfed11aab3b13107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:47 +0000
Subject: [PATCH 18/20] fix: walk every directory argument on its own

---
 crates/workspace/src/discovery.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/workspace/src/discovery.rs b/crates/workspace/src/discovery.rs
index 01c2011..aa17f20 100644
--- a/crates/workspace/src/discovery.rs
+++ b/crates/workspace/src/discovery.rs
@@ -127,9 +127,28 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
 ) -> DiscoveredFiles {
     let paths: Vec<PathBuf> = paths.iter().map(fs::normalize_path).collect();
 
+    let state = FilesState::new(resolver, mode, exclude, include);
+
+    // Every directory gets a walker of its own. The roots of a single walker share the
+    // ignore files of their parent directories, along with the base they are matched
+    // against, which is that of whichever root happens to be walked first.
+    let (directories, files): (Vec<PathBuf>, Vec<PathBuf>) =
+        paths.into_iter().partition(|path| path.is_dir());
+
+    for directory in directories.chunks(1) {
+        visit_paths(directory, &state);
+    }
+
+    visit_paths(&files, &state);
+
+    state.finish()
+}
+
+/// Walk `paths` in parallel, collecting what is found in `state`
+fn visit_paths(paths: &[PathBuf], state: &FilesState) {
     let Some((first_path, paths)) = paths.split_first() else {
         // No paths provided
-        return Vec::new();
+        return;
     };
 
     let mut builder = ignore::WalkBuilder::new(first_path);
@@ -161,11 +180,8 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     let walker = builder.build_parallel();
 
     // Run the `WalkParallel` to collect all R files.
-    let state = FilesState::new(resolver, mode, exclude, include);
-    let mut visitor_builder = FilesVisitorBuilder::new(&state);
+    let mut visitor_builder = FilesVisitorBuilder::new(state);
     walker.visit(&mut visitor_builder);
-
-    state.finish()
 }
 
 /// Shared state across the threads of the walker
-- 
2.43.0


From 64dc28bc30f81a6f2f206d635d3ae5ebf2768229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:03 +0000
Subject: [PATCH 19/20] fix: do not take files named `*.,` for R files

---
 crates/workspace/src/settings/default_include_patterns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/workspace/src/settings/default_include_patterns.rs b/crates/workspace/src/settings/default_include_patterns.rs
index 69508e1..58a5fc9 100644
--- a/crates/workspace/src/settings/default_include_patterns.rs
+++ b/crates/workspace/src/settings/default_include_patterns.rs
@@ -9,7 +9,7 @@ use crate::file_patterns::DefaultFilePatterns;
 /// be supplied here.
 static DEFAULT_INCLUDE_PATTERN_NAMES: &[&str] = &[
     // R files with any filename at any depth
-    "**/*.[R,r]",
+    "**/*.[Rr]",
 ];
 
 static DEFAULT_INCLUDE_PATTERNS: LazyLock<DefaultFilePatterns> = LazyLock::new(|| {
-- 
2.43.0


From dabafd0778f8ea520a95539ff44b39c429c26a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:20 +0000
Subject: [PATCH 20/20] fix: end saving file representations only once the
 archive is written, and report a failure

---
 editors/code/src/commands.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/editors/code/src/commands.ts b/editors/code/src/commands.ts
index 207b177..4ba6dc2 100644
--- a/editors/code/src/commands.ts
+++ b/editors/code/src/commands.ts
@@ -69,7 +69,7 @@ export function registerCommands(ctx: Ctx) {
 				await vscode.commands.executeCommand(
 					"air.viewFileRepresentations",
 				);
-				zipFileRepresentations();
+				await zipFileRepresentations();
 			},
 		),
 	);
-- 
2.43.0

